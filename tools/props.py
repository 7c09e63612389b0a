#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept readable here; run to regenerate).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
S="src/"
p("C01","Taught-event table equals exactly what the teaching messages leave",
  "After any sequence of teach, indexed-teach, unlearn and clear requests, the event list, entry count, free-slot count, single-entry reads and event-variable reads a node reports are exactly the entries and variable values those requests leave in the table. A teach or unlearn request is answered with success only if it took full effect, and otherwise with an error (table full, unknown event, bad index, bad variable number, truncated request) and changes nothing. No two requests interfere: touching one entry never alters another.",
  ["histories","inputs","configurations"],
  "every sequence of teaching/reading/clearing messages over colliding and non-colliding event identities up to the depth bound, for several table shapes, plus every value of each index, variable-number and value byte and every node/event-number value from chosen base tables",
  "Unit tests teach one or two fixed events into a small table and read them back once; they never interleave unlearning with re-teaching, hash collisions, full tables or boundary indices.",
  [S+"EventTeachingService.cpp",S+"Configuration.cpp"],
  [("event lookup through a hash kept in step with storage",S+"Configuration.cpp findExistingEvent/updateEvHashEntry/findEventSpace"),("teaching handlers",S+"EventTeachingService.cpp handleLearnEvent/handleLearnEventIndex/handleUnlearnEvent/handleClearEvents")],
  ["messages sent by the node","event table contents read through the configuration API"])
p("C02","Event table changes only in learn mode, and learn mode is precisely controlled",
  "Apart from a factory reset, a node's event table never changes through bus messages unless the node is in learn mode. A node enters learn mode only on a request carrying its own node number and leaves it only on a request carrying its own node number or when another node is put into learn mode by the dedicated request; the learn flag it reports in its parameters always equals the actual learn state. Outside learn mode teaching requests get no effect (and clear requests get a refusal).",
  ["histories","inputs"],
  "every sequence of learn-mode control messages (own number, other number, both message forms) and table-changing messages up to the depth bound; all 256 mode codes and all 65536 node numbers from both learn states",
  "Tests check a handful of fixed enter/leave messages with one node number each.",
  [S+"EventTeachingService.cpp",S+"MinimumNodeService.cpp",S+"Controller.cpp"],
  [("learn flag tests in each handler",S+"EventTeachingService.cpp"),("parameter flag mirror",S+"Controller.cpp setParamFlag")],
  ["event table","reported flags parameter","replies"])
p("C03","An incoming event reaches the application exactly when it is taught",
  "When an accessory on/off event (long or short form, with 0 to 3 data bytes, or a long-form status response without data) arrives, the application's event callback runs exactly once, with the index of the lowest table entry holding that identity and the unmodified message, if and only if such an entry exists. Short events match entries with node number zero whatever node number the message carries. No other message ever triggers the callback.",
  ["inputs","histories"],
  "all 256 opcodes x message lengths x node/event numbers (all 65536 of each from chosen tables), interleaved with teaching and unlearning sequences up to the depth bound",
  "Tests send a few fixed events against a one-entry table.",
  [S+"EventConsumerService.cpp",S+"Configuration.cpp"],
  [("opcode dispatch and table lookup",S+"EventConsumerService.cpp handleConsumedMessage/processAccessoryEvent"),("hash lookup with full comparison",S+"Configuration.cpp findExistingEvent")],
  ["application callback"])
p("C04","A produced event goes out once with the identity taught for its input",
  "Each call to produce an event for an input value sends exactly one event message carrying the on/off state, the data bytes given, and the identity of the table entry whose first event variable equals that input value; entries with node number zero go out as short events carrying the node's own number. If no entry exists, one is created with the node's own number and the lowest event number not yet in use, all its other variables zero, without disturbing any existing entry. On leaving the uninitialised state for the first time after power-up a node creates one such entry per declared produced input.",
  ["histories","inputs","configurations"],
  "every sequence of produce/teach/unlearn/clear/commissioning steps up to the depth bound, all 255 input values, all payload forms, tables from empty to completely full",
  "Tests call each send form once on a table prepared by hand; deleted entries, reuse and full tables are not exercised.",
  [S+"EventProducerService.cpp",S+"Configuration.cpp"],
  [("lookup by first event variable and default creation",S+"EventProducerService.cpp findOrCreateEventByEv/createDefaultEvent"),("initial provisioning",S+"EventProducerService.cpp process/setProducedEvents")],
  ["messages sent","event table"])
p("C05","Event status requests reach the application exactly for produced events",
  "A long status request, or a short one addressed to this node or to node zero, triggers the application's request callback exactly once with the right table index if and only if the requested identity is in the table with a non-zero first event variable; nothing else triggers it. A status response sent for an index carries the state, data bytes and identity of that entry in the matching long or short response form. Without a registered callback requests are ignored.",
  ["inputs","histories"],
  "all opcodes, all node numbers and event numbers, all first-variable values, all response forms, interleaved with teaching up to the depth bound",
  "Tests cover one request of each kind with one fixed table.",
  [S+"EventProducerService.cpp"],
  [("request filtering",S+"EventProducerService.cpp handleProdSvcMessage"),("response forms",S+"EventProducerService.cpp sendEventResponse")],
  ["application callback","messages sent"])
p("C06","Node variables are an exact, bounds-checked array",
  "Reading a node variable returns the last value written to that variable (zero after a reset), reading variable 0 returns the count followed by every variable, and set-and-read answers with the stored value. Writes change only the addressed variable; variable numbers outside 1..count and truncated requests are rejected with an error and change nothing at all in storage.",
  ["inputs","histories","configurations"],
  "every sequence of set/set-and-read/read over boundary variables up to the depth bound, every (variable number, value) pair and message length, for NV counts from 0 to 255",
  "Tests write one variable with one value; they never try index 0, the boundary or sequences.",
  [S+"NodeVariableService.cpp",S+"Configuration.cpp"],
  [("bounds checks",S+"NodeVariableService.cpp handleReadNV/handleSetNV/handleSetAndReadNV"),("NV addressing",S+"Configuration.cpp readNV/writeNV")],
  ["messages sent","persistent storage"])
p("C07","A message addressed to another node has no effect and gets no answer",
  "A message whose opcode carries a target node number that is not this node's causes no change to any persistent data, mode, CAN id, variables, heartbeat setting or events of this node, and no reply from it. The only exceptions are those the protocol itself defines: event messages, assigning a node number to a node in setup, another node's request for a number ending this node's setup, another node's entry into learn mode ending this node's learn mode, and teaching by event identity while in learn mode.",
  ["inputs","histories"],
  "all addressed opcodes x lengths x payload classes x all node numbers other than the node's own, from every operating mode and learn state, for own numbers differing in one or both bytes",
  "Tests check one foreign node number for some opcodes in one mode.",
  [S+"MinimumNodeService.cpp",S+"EventTeachingService.cpp",S+"NodeVariableService.cpp",S+"CanService.cpp",S+"Service.cpp"],
  [("node number comparison in every handler",S+"Service.cpp isThisNodeNumber")],
  ["messages sent","persistent storage","reported parameters"])
p("C08","Operating mode and node-number negotiation follow the protocol state machine",
  "From any history of button actions and messages, the node is in exactly one of uninitialised, setup or normal mode and moves between them only as specified: change-mode and renegotiate actions, mode requests, node-number assignment in setup, and abandonment of setup when another node requests a number. Every transition emits exactly the specified messages (number request, acknowledge, release, grant responses) with the right node number, and the indicated mode and the reported normal flag always match. Identification queries are answered only in the modes where they are allowed, and a module left in setup can always return to its previous mode with its previous number.",
  ["histories","inputs"],
  "every sequence of mode actions and mode/number messages (own, foreign and zero numbers, truncated forms) up to the depth bound from every initial mode; all 256 mode codes",
  "Tests walk single transitions; sequences such as abandoning, renegotiating and releasing in various orders are not covered.",
  [S+"MinimumNodeService.cpp",S+"Configuration.cpp",S+"Controller.cpp"],
  [("mode state machine",S+"MinimumNodeService.cpp process/handleMessage/handleModeMessage"),("mode indication",S+"Controller.cpp indicateMode")],
  ["messages sent","mode indications","reported parameters","persistent storage"])
p("C09","Configuration survives a restart exactly",
  "Whatever messages and actions a node has processed, restarting it from its persistent storage reproduces the same node number, CAN id, operating mode (setup reverting to the previous mode), heartbeat and event-acknowledge settings, node variables and event table, and a restart by itself changes none of them. A factory-blank storage always comes up uninitialised with number 0, CAN id 0, no events and zeroed node variables.",
  ["histories","crash_points","configurations"],
  "every sequence of configuration-changing operations up to the depth bound followed by a restart at every point, for several storage layouts",
  "No unit test restarts a node from the storage a previous history left behind.",
  [S+"Configuration.cpp",S+"MinimumNodeService.cpp",S+"EventTeachingService.cpp"],
  [("write-through storage and start-up load",S+"Configuration.cpp begin/loadNVs/makeEvHashTable/setModuleNormalMode/setCANID")],
  ["configuration API after restart","messages after restart"])
p("C10","Power loss during any write leaves only the item being written in doubt",
  "If power fails after any prefix of the storage writes of any operation, the restarted node comes up in a defined mode, and every node variable, event entry, setting and identity item other than the one the interrupted operation was changing reads back as before. A node whose first number assignment is interrupted comes up either still uninitialised or in normal mode with exactly the assigned number, never in normal mode with another number. An interrupted factory reset never comes up in normal mode with an erased or mixed node number, and an interrupted first start is made good by the next start.",
  ["crash_points","histories"],
  "every crash point (each byte-write boundary) of every operation in every history up to the depth bound, and a second crash during the recovery start-up",
  "Unit tests have no notion of power loss.",
  [S+"Configuration.cpp",S+"MinimumNodeService.cpp",S+"EventTeachingService.cpp",S+"NodeVariableService.cpp"],
  [("order of storage writes",S+"Configuration.cpp setModuleNormalMode/setModuleUninitializedMode/resetModule/writeEvent")],
  ["persistent storage after each write prefix","configuration API after restart"])
p("C11","CAN id self-enumeration picks the lowest id no other node answered with",
  "An enumeration (by button, request, mode change or detected id clash) sends exactly one remote request, collects every empty-frame answer for 100 ms, then adopts and persists the lowest id from 1 to 127 that nobody answered with. Start requests during an enumeration do not restart it, a node-requested enumeration is acknowledged once at its end, and an id clash in a non-empty frame starts one while empty and remote frames never do. A CAN id set by command is accepted from 1 to 99 and otherwise refused without change.",
  ["schedules","inputs","histories"],
  "every single answer, every pair, every contiguous and almost-full answer set, every answer time 0..101 ms, and every interleaving of answers, other traffic, clashes, start requests and clock steps up to the depth bound",
  "Tests run one enumeration with two fixed answers.",
  [S+"CanService.cpp"],
  [("response bitmap and 100 ms timer",S+"CanService.cpp checkIncomingCanFrame/checkCANenumTimout/findFreeCanId")],
  ["CAN frames sent","persistent CAN id"])
p("C12","Every message crosses the CAN boundary once, in order and unchanged",
  "Each standard data frame received is delivered to the services exactly once, in arrival order, with its bytes unchanged, and each message the node sends leaves as exactly one standard data frame with the node's current CAN id, normal priority, same length and bytes, in the order sent. Extended frames are ignored, remote frames are answered with exactly one empty frame and otherwise ignored, and every data frame in or out is reported as activity. Provided the internal queue bound of 30 is not exceeded no message is lost, duplicated or reordered.",
  ["schedules","inputs"],
  "every interleaving of frame arrivals (all kinds, all lengths 0..8), application sends, multi-reply requests and processing steps up to the depth bound; all CAN ids and all data-byte values",
  "Tests push one frame through at a time.",
  [S+"CanService.cpp",S+"Controller.cpp",S+"CircularBuffer.h"],
  [("action queue and frame conversion",S+"CanService.cpp checkIncomingCanFrame/sendMessage"),("one action per processing round to every service",S+"Controller.cpp process")],
  ["CAN frames in and out","messages seen by services"])
p("C13","The message queue is a bounded FIFO that overwrites only the oldest entry",
  "For any sequence of insertions, removals and clears on a queue of any capacity, items come out in insertion order without loss or duplication until the capacity is exceeded, at which point exactly the oldest item is dropped for each further insertion. Emptiness, the next item, and the counts of insertions, removals and overflows (modulo 256) and the high-water mark are always right.",
  ["histories","configurations"],
  "all reachable states for every capacity from 1 to 255 and all operation sequences up to the depth bound",
  "Tests use one capacity and a few operations.",
  [S+"CircularBuffer.h"],
  [("head/tail/full bookkeeping",S+"CircularBuffer.h put/pop/bufUse")],
  ["queue API"])
p("C14","A long message is delivered exactly as sent or reported as failed",
  "A long message of any length sent on a stream arrives at a node subscribed to that stream with exactly the same bytes in the same order, split at the receive buffer size, and is reported complete exactly once. Fragments of other streams and unsubscribed messages never disturb a reception in progress; a missing, repeated or out-of-order fragment of the stream is reported once as a sequence error and a stall longer than the timeout once as a timeout, after which a fresh message is received normally. Nothing is ever written outside the receive buffer.",
  ["fault_sequences","schedules","inputs"],
  "every message length up to beyond the 8-bit sequence wrap, every receive buffer size, and every interleaving of fragments of two streams with loss, duplication, reordering and timeouts up to the depth bound",
  "Tests send one short message and one error case.",
  [S+"LongMessageService.cpp"],
  [("fragment sequencing and buffer surfacing",S+"LongMessageService.cpp processReceivedMessageFragment/process/sendLongMessage")],
  ["application callback","DTXC messages sent"])
p("C15","Concurrent long messages stay independent in the extended service",
  "With several transfers in flight the extended long-message service sends every message's fragments completely, in sequence and with the right bytes including zero bytes, and the receiver delivers each message intact and separately, whatever the interleaving. When all send slots are busy a further send is refused without disturbing those in progress, and when all receive slots are busy further messages are ignored. A message that cannot be accepted, for want of a slot or of memory, leaves nothing behind, and the memory of one that is sent is given back. Length overflow is reported as truncated, a bad checksum (when checking is on) as a checksum error, a sequence gap and a stall as such, each exactly once and only for the affected stream.",
  ["schedules","fault_sequences","inputs"],
  "every interleaving of starts, fragment steps, losses and clock steps of up to three streams over up to three slots up to the depth bound; message lengths across the sequence wrap and contents with every byte value",
  "Tests send one or two short text messages.",
  [S+"LongMessageService.cpp"],
  [("per-stream contexts",S+"LongMessageService.cpp LongMessageServiceEx"),("crc16",S+"LongMessageService.cpp crc16")],
  ["application callback","DTXC messages sent"])
p("C16","GridConnect text and CAN frames convert into each other without loss",
  "Encoding any CAN frame (standard or extended, data or remote, any id, length and data) to GridConnect text and decoding that text yields the same frame, and the text is the documented canonical form. Text that is not a well-formed frame (the forms accepted are those the tests fix: remote frames may carry data digits) is rejected and never yields a frame or touches memory outside the buffers.",
  ["inputs"],
  "all 2048 standard ids, extended ids over all bit patterns reachable by one or two bits, all lengths, all byte values in every position, both kinds; every single-character change and truncation of valid texts",
  "Tests convert a few fixed frames.",
  [S+"GridConnect.cpp"],
  [("encode/decode",S+"GridConnect.cpp")],
  ["codec API"])
p("C17","A serial GridConnect stream is parsed correctly however it is chunked",
  "Over a serial byte stream, every well-formed frame is delivered exactly once, in order and unchanged, no matter how the bytes are split over time, what noise precedes it, or whether an earlier frame was broken off or too long, and each frame sent appears once on the line as its text. Malformed text ended by ';' never yields a frame and is counted as an error; the receive counter counts completed texts and the transmit counter frames sent.",
  ["schedules","fault_sequences","inputs"],
  "every chunking and interleaving of valid, broken, overlong and noise segments up to the depth bound; two transports at once",
  "The serial transport is not part of the test programme at all.",
  [S+"SerialGC.cpp",S+"GridConnect.cpp"],
  [("receive buffer and framing",S+"SerialGC.cpp available/getNextCanFrame/sendCanFrame")],
  ["frames delivered","bytes written","counters"])
p("C18","Service discovery, parameters and diagnostics describe the node truthfully",
  "For any set of services a node is built from, the service list, per-service details, parameters and identification replies have the right count, indices, identifiers, versions and values, and flag bits reflect exactly the services present plus the current mode and learn state. Requests for a missing service, parameter or diagnostic are answered with the specified error and truncated requests with a command error. Diagnostic counters report the true number of events produced, consumed and taught and of node-number changes, and uptime.",
  ["configurations","inputs","histories"],
  "every subset and several orders of the available services, every index byte 0..255 for services, parameters and diagnostics, every message length, and counter histories up to the depth bound",
  "Tests use two or three fixed service sets and indices; the diagnostic variants of the event services are never run.",
  [S+"MinimumNodeService.cpp",S+"MinimumNodeServiceWithDiagnostics.cpp",S+"CanServiceWithDiagnostics.cpp",S+"EventProducerServiceWithDiagnostics.cpp",S+"EventConsumerServiceWithDiagnostics.cpp",S+"EventTeachingServiceWithDiagnostics.cpp",S+"Parameters.h",S+"Controller.cpp"],
  [("discovery handlers",S+"MinimumNodeService.cpp handleRequestServiceDefinitions/handleRequestNodeParameter"),("diagnostic reports",S+"*WithDiagnostics.cpp")],
  ["messages sent"])
p("C19","No message can corrupt memory or storage or stop the node",
  "Whatever frame arrives (any opcode, length and content, in any mode, in any short sequence), the node processes it without accessing memory outside its own data, writes no storage location outside its identity, node-variable and event areas, and stays responsive: it still answers a query and still handles events afterwards; no message, however often repeated, uses up memory. Table indices and variable numbers are always range-checked before use, including when the event table is full.",
  ["inputs","histories"],
  "all opcodes x all lengths 0..8 x boundary values in every data byte, from several modes and table fill levels, followed by every opcode again (pairs), executed on the real code under address and undefined-behaviour instrumentation",
  "Tests send well-formed messages and are not run under memory checking.",
  [S+"Configuration.cpp",S+"EventTeachingService.cpp",S+"EventProducerService.cpp",S+"NodeVariableService.cpp",S+"MinimumNodeService.cpp",S+"CanService.cpp",S+"LongMessageService.cpp"],
  [("range checks",S+"EventTeachingService.cpp"),("storage layout",S+"Configuration.cpp begin/getEVAddress")],
  ["storage write addresses","memory instrumentation","liveness probe"])
p("C20","Every storage back-end returns what was last written, and nothing else changes",
  "For each supported storage medium (on-chip, external serial memory with page-limited writes, emulated flash with page erase), a read of any address after any sequence of single and block writes returns the last byte written there, including blocks that cross page boundaries. A write never alters a neighbouring address, a reset clears exactly the configuration area, and data survive a restart.",
  ["histories","inputs","configurations"],
  "every block write position and length across page boundaries and every sequence of single/block writes, reads, resets and restarts up to the depth bound on a faithful model of each medium",
  "The unit tests use a mock storage; no back-end is ever executed.",
  [S+"EepromInternalStorage.cpp",S+"EepromExternalStorage.cpp",S+"FlashStorage.cpp",S+"DueEepromEmulationStorage.cpp"],
  [("block write handling",S+"EepromExternalStorage.cpp writeBytes"),("page cache",S+"FlashStorage.cpp flash_write_bytes/flash_writeback_page")],
  ["storage API","medium contents"])
p("C21","Heartbeats are sent at the right times and only when they should be",
  "A node in normal mode with heartbeat enabled sends a heartbeat whenever more than 5 seconds have passed since the last one, each with its node number and the next sequence number modulo 256, and never otherwise. None is sent when heartbeat is disabled, when uninitialised or while in setup, and enabling or disabling takes effect at once, is persistent and survives the millisecond clock wrapping.",
  ["schedules","histories"],
  "every sequence of clock steps (including the exact boundary and the clock wrap), heartbeat on/off requests, mode changes and restarts up to the depth bound; more than 256 consecutive heartbeats",
  "Tests advance the clock once.",
  [S+"MinimumNodeService.cpp"],
  [("heartbeat timer",S+"MinimumNodeService.cpp heartbeat")],
  ["messages sent"])
p("C22","Button presses and mode LEDs follow the documented user interface",
  "A button press causes exactly one action, decided only by how long it was held: under half a second a CAN id enumeration, one to two seconds a renegotiation, more than four seconds a mode change, anything else nothing. The two LEDs show the current mode (green for uninitialised, blinking yellow for setup, steady yellow for normal), show an imminent mode change while held over four seconds and revert if appropriate, and pulse on activity. Each press and each release counts as soon as a processing round sees the changed level; there is no other filtering, and a module state that is left and re-entered starts its LED pattern afresh.",
  ["schedules","inputs"],
  "every press duration in millisecond steps around all thresholds, every sequence of press/release/mode-change/activity steps up to the depth bound, LED levels sampled at every step",
  "The switch, LED and LED user-interface code is not part of the test programme.",
  [S+"LEDUserInterface.cpp",S+"Switch.cpp",S+"LED.cpp"],
  [("press classification",S+"LEDUserInterface.cpp"),("edge detection and press duration",S+"Switch.cpp"),("blink/pulse timers",S+"LED.cpp")],
  ["actions seen by services","output pins"])
p("C23","A node reacts to its own events exactly if it has that service",
  "When a node containing the consume-own-events service sends an event whose identity is in its table, its own event callback runs exactly once for it, just as for the same event received from the bus; without that service a node never reacts to its own transmissions. In both cases the event is sent on the bus exactly once.",
  ["configurations","histories"],
  "both configurations, every event form and payload, every sequence of produce/receive/teach/unlearn up to the depth bound",
  "Tests check one event with and without the service.",
  [S+"EventConsumerService.cpp",S+"ConsumeOwnEventsService.h",S+"Controller.cpp"],
  [("outgoing messages offered to the consumer when the flag is set",S+"EventConsumerService.cpp process")],
  ["application callback","messages sent"])
p("C24","Several nodes on one bus settle into distinct ids and deliver events end to end",
  "When several nodes share a bus, under every order of frame delivery and processing: nodes that enumerate one after another end with pairwise distinct CAN ids, a node whose id clashes with the sender of an event moves to the lowest free id, only a node in setup takes an offered node number, two nodes competing for setup never take the same number, and the one that enters setup after the other's request was on the bus is the one that gets it. An event produced by one node triggers the callback of every node that was taught it, once each, and of no other, and a long message sent by one node arrives intact at the subscribed others.",
  ["schedules","configurations"],
  "two and three complete nodes, every interleaving of per-node processing steps, per-link frame deliveries and clock steps up to the depth bound",
  "All unit tests run a single node against a mock.",
  [S+"CanService.cpp",S+"MinimumNodeService.cpp",S+"EventProducerService.cpp",S+"EventConsumerService.cpp",S+"LongMessageService.cpp"],
  [("enumeration responses and clash detection",S+"CanService.cpp"),("setup abandonment",S+"MinimumNodeService.cpp handleMessage")],
  ["CAN frames on the simulated bus","CAN ids","node numbers","callbacks"])
p("C25","Factory reset returns a node to the factory state, and only on request",
  "A factory-reset request addressed to the node releases its number and leaves it, after the restart, uninitialised with number 0, CAN id 0, no events, zero node variables, heartbeat off and the reset indication set, whatever history preceded it. Requests addressed to other nodes and the plain restart request erase nothing.",
  ["histories","inputs"],
  "every configuration history up to the depth bound followed by the reset or restart request, on each storage layout; all node numbers in the request",
  "Tests only check that the release message is sent.",
  [S+"MinimumNodeService.cpp",S+"Configuration.cpp"],
  [("reset to defaults",S+"Configuration.cpp resetModule")],
  ["messages sent","configuration API after restart"])
p("C26","The CAN controller driver passes frames and counters through faithfully",
  "Every frame the CAN controller receives is handed to the library with identical identifier, kind, length and data, in order and once, and every frame the library sends reaches the controller identically; the result of each send is reported truthfully. Receive and transmit counts since the start or reset and error status are exact, and resetting the driver restores operation with everything the user chose: polling or interrupt mode, pins, SPI bus, buffer sizes and oscillator.",
  ["schedules","inputs"],
  "every sequence of receive, send (accepted or refused by the controller), poll and reset steps up to the depth bound in both interrupt and polling configuration; all ids, kinds, lengths and byte values",
  "The driver is not part of the test programme.",
  [S+"CAN2515.cpp",S+"CAN2515.h"],
  [("frame conversion and counters",S+"CAN2515.cpp available/getNextCanFrame/sendCanFrame/reset")],
  ["frames passed to and from the controller","counters"])
p("C27","The serial command interface acts exactly as documented",
  "Each documented command character typed on the serial line has exactly its documented effect: 'n', 'e', 'v', 'c', 'h' and 'm' print true information about the node (identity and mode, event table, node variables, CAN bus counters, free memory; 'h' calls the hook that a sketch fills in), 'y' resets the CAN transport, '*' reboots and 's' changes mode; line ends do nothing and every other character is answered as unknown. None of them, in any sequence, state or configuration, changes the module's stored configuration or keeps the node from processing messages. Mode changes of the module are announced.",
  ["inputs","histories","configurations"],
  "all 256 byte values from every interface state, every command sequence interleaved with events and mode changes up to the depth bound, and table and variable sizes up to the largest the configuration allows",
  "The serial user interface is not part of the test programme.",
  [S+"SerialUserInterface.cpp"],
  [("command dispatch",S+"SerialUserInterface.cpp processSerialInput"),("mode announcements",S+"SerialUserInterface.cpp handleAction/indicateMode")],
  ["actions seen by services","persistent storage","text written"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

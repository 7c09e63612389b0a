T="explicit-state exploration of the real code (snapshot/restore) against a reference model"
LEVEL={}
NA={}
def L(i,note,tech=T): LEVEL[i]=(tech,note)
BASE="Every operation sequence / input within the stated bounds is executed on the real compiled sources and compared step by step with an independent reference model; complete within those bounds. Trusts the g++ host build, the harness's Arduino stand-ins and the reference model in mc/ref.h."
L('C01',"Taught-event table vs reference after every step. "+BASE)
L('C02',"Learn-mode control and table changes vs reference. "+BASE)
L('C03',"Event callbacks vs reference. "+BASE)
L('C04',"Produced events, default event creation and provisioning vs reference. "+BASE)
L('C05',"Request callbacks and status responses vs reference. "+BASE)
L('C06',"Replies, every variable and every storage byte compared after each request. "+BASE)
L('C07',"Every message addressed to another node, in every explored state, must leave storage, identity, mode, flags and bus untouched. "+BASE)
L('C08',"Mode machine vs reference. "+BASE)
L('C09',"Restart after every explored history. "+BASE)
L('C10',"Power cut after every byte write of every operation, in sequences; item-wise oracle on the restarted real node. Byte writes are assumed atomic. Complete within the stated bounds.","exhaustive fault (crash-point) enumeration on the real code")
L('C11',"Enumeration vs reference: sequences, answer sets, every millisecond of timing. "+BASE)
L('C12',"All interleavings of arrivals, sends, CAN id changes and processing rounds to the depth bound plus every frame header/length/byte. "+BASE,"stateless exploration of all schedules of the real code against a FIFO reference")
L("C13","All put/pop/clear sequences to the bound for small capacities; every capacity 1-255 with every starting position and fill; counter wrap. "+BASE)
L('C14',"Receiver vs reference reassembler, sender vs reference fragmenter, and sender to receiver for every length. "+BASE)
L('C15',"Multi-slot receiver, sender and both together vs reference models, all interleavings of whole messages. "+BASE)
L('C16',"Encoding and decoding vs an independent encoder and parser over all standard ids, structured extended ids, all data byte values and lengths, every one- and two-character change of valid texts and all short texts. "+BASE)
L('C17',"Character, text and arrival/poll sequences vs a reference parser, two ports, sends at every position. "+BASE)
L('C18',"Every service subset, several orders, every index and code, counter histories. "+BASE)
L('C19',"Address- and bounds-instrumented real node with poisoned heap; storage-window monitor and liveness probe after every message."+" All opcodes and lengths with boundary bytes, all pairs, sequences to the bound, in several layouts and states.","exhaustive bounded input and sequence enumeration on the instrumented real code")
L('C20',"Every (address, length) block write, sequences, and a complete node on each of seven medium models. The media models (page wrap, busy time, erase before write, commit) are the harness's own. "+BASE)
L('C21',"Heartbeat and timed responses vs reference, every poll phase. "+BASE)
L('C22',"Button and LED behaviour vs reference: every press pattern in time steps to the bound. "+BASE)
L('C23',"All orders of queued actions and processing rounds vs reference. "+BASE)
L('C25',"Factory reset from every explored history vs the state of a new module. "+BASE)
L('C24',"All interleavings of two to four real nodes, the bus and a tool, until nothing is left to do; one persistent-set reduction (a node with input waiting and no outstanding call runs first). The three-node runs treat a node's rounds up to idle as one step, the two-node runs interleave every single round. "+BASE,'stateful exploration of all interleavings of several real nodes on a modelled bus, with partial-order reduction')
L('C26',"Driver on a model of the ACAN2515 library and chip, written from its declared interface: every frame both ways, all sequences of arrivals, reads, sends, resets, setting changes. "+BASE)
L('C27',"Every character in every state, all sequences with messages and mode changes, tables of every extreme size; text judged by its numbers and names. "+BASE)

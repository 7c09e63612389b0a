SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

S('stale_hash', 'C01', [('src/EventTeachingService.cpp', '''      // recreate event hash table entry
      module_config->updateEvHashEntry(index);
      
      // respond with WRACK''', '''      // the entry was in use already
      
      // respond with WRACK''')],
  'teach an event with EV1 = x, re-teach another identity with the same EV1, then address that entry by the new identity without a restart in between',
  'the in-memory lookup table is not updated when a produced event is renamed: the new identity cannot be found until restart',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(260, 1, 1, 9);
n.teach(260, 77, 1, 9);
CHECK(n.cfg->numEvents() == 1);
CHECK(n.cfg->findExistingEvent(260, 1) == n.o.events);
CHECK(n.cfg->findExistingEvent(260, 77) == 0);
auto r = n.msg({OPC_REQEV, 1, 4, 0, 77, 1});
CHECK(Node::has(r, {OPC_EVANS, 1, 4, 0, 77, 1, 9}));''')

S('hb_clears_ack', 'C09', [('src/Configuration.cpp', '''  byte mode = storage->read(LOCATION_FLAGS);
  bitWrite(mode, HEARTBEAT_BIT, beat);
  storage->write(LOCATION_FLAGS, mode);''', '''  storage->write(LOCATION_FLAGS, beat << HEARTBEAT_BIT);''')],
  'event acknowledge switched on, then heartbeat set, then a restart',
  'setting the heartbeat overwrites the stored event-acknowledge setting; the loss shows only after a restart',
'''Node n; n.toNormal(260);
n.cfg->setEventAck(true);
n.msg({OPC_MODE, 1, 4, MODE_HEARTBEAT_ON});
CHECK(n.cfg->eventAck && n.cfg->heartbeat);
n.restart();
CHECK(n.cfg->heartbeat);
CHECK(n.cfg->eventAck);''')

S('flags_erase_first', 'C10', [('src/Configuration.cpp', '''  bitWrite(mode, HEARTBEAT_BIT, beat);
  storage->write(LOCATION_FLAGS, mode);''', '''  bitWrite(mode, HEARTBEAT_BIT, beat);
  if (mode != storage->read(LOCATION_FLAGS))
  {
    storage->write(LOCATION_FLAGS, 0);
    storage->write(LOCATION_FLAGS, mode);
  }''')],
  'event acknowledge on, and a power failure between the two writes of a heartbeat change',
  'the settings byte is erased before it is written, so a power failure in between loses the event-acknowledge setting',
'''for (int cut = 0; cut < 4; ++cut)
{
  Node n; n.toNormal(260);
  n.cfg->setEventAck(true);
  n.st->writes = 0; n.st->cut = cut;
  n.msg({OPC_MODE, 1, 4, MODE_HEARTBEAT_ON});
  n.restart();
  CHECK(n.cfg->eventAck);
  CHECK(n.cfg->nodeNum == 260);
}''')

S('learn_flag_lost', 'C02', [('src/Controller.cpp', '''  setParamFlag(PF_NORMAL, mode == MODE_NORMAL);
}''', '''  if (mode == MODE_NORMAL)
  {
    setParamFlag(PF_NORMAL, true);
  }
  else
  {
    // only a node in normal mode has mode dependent flags
    _mparams[PAR_FLAGS] &= ~(PF_NORMAL | PF_LRN);
  }
}''')],
  'learn mode entered, then the node leaves normal mode (setup) while still in learn mode',
  'the reported learn flag is cleared while the node is still in learn mode and accepts teaching',
'''Node n; n.toNormal(260); n.learn(true);
n.ctl->putAction(ACT_RENEGOTIATE); n.run();
int flag = n.ctl->getParam(PAR_FLAGS) & PF_LRN;
n.teach(1, 2, 1, 3);
bool learning = n.cfg->numEvents() == 1;
CHECK(learning == (flag != 0));''')

S('lookup_low_nn', 'C03', [('src/Configuration.cpp', '''      if (getTwoBytes(&tarray[0]) == nn && getTwoBytes(&tarray[2]) == en)
      {
        return i;''', '''      // the hash covers the high byte of the node number already
      if (tarray[1] == lowByte(nn) && getTwoBytes(&tarray[2]) == en)
      {
        return i;''')],
  'two node numbers that agree in the low byte and whose hashes collide (high bytes differing in bit 7 only)',
  'an event of another node with a colliding hash is taken for the taught one',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(0x0102, 5, 1, 0);
for (int hi = 0; hi < 256; ++hi)
{
  g_events.clear();
  n.msg({OPC_ACON, hi, 0x02, 0, 5});
  CHECK(g_events.size() == (hi == 1 ? 1u : 0u));
}''')

S('free_number_guess', 'C04', [('src/EventProducerService.cpp', '''  for (eventNum = 1; eventNum <= module_config->EE_MAX_EVENTS; eventNum++)''',
 '''  for (eventNum = module_config->numEvents() + 1; eventNum <= module_config->EE_MAX_EVENTS; eventNum++)''')],
  'a produced event unlearned or renumbered while others stay, then a further input producing for the first time',
  'the new event does not get the lowest free event number but one derived from the number of entries',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(300, 5, 1, 50); n.teach(300, 6, 1, 51);
n.learn(false); n.can.out.clear();
n.eps->sendEvent(true, 7); n.run();
CHECK(Node::has(n.sent(), {OPC_ACON, 1, 4, 0, 1}));''')

S('ars3_opcode', 'C05', [('src/EventProducerService.cpp', '''opCode = (state ? OPC_ARSON3 : OPC_ARSOF3);''', '''opCode = (state ? OPC_ARSON3 : OPC_ARSOF2);''')],
  'a status response for a short event, off state, three data bytes', 'the off response with three data bytes carries the opcode for two',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(0, 5, 1, 3); n.can.out.clear();
n.eps->sendEventResponse(false, 0, 7, 8, 9); n.run();
CHECK(Node::has(n.sent(), {OPC_ARSOF3, 1, 4, 0, 5, 7, 8, 9}));''')

S('enum_broadcast', 'C07', [('src/CanService.cpp', '''  if (isThisNodeNumber(nn))
  {
    // DEBUG_SERIAL << F("> initiating enumeration") << endl;''', '''  if (isThisNodeNumber(nn) || nn == 0)
  {
    // DEBUG_SERIAL << F("> initiating enumeration") << endl;''')],
  'an enumeration request addressed to node number 0 reaching a node that has a number', 'a request for an uninitialised node makes every node enumerate',
'''Node n; n.toNormal(260);
auto r = n.msg({OPC_ENUM, 0, 0}); g_now += 150; n.run();
CHECK(n.can.out.empty());''')

S('rqnn_to_uninit', 'C08', [('src/MinimumNodeService.cpp', '''        instantMode = module_config->currentMode;
        controller->indicateMode(module_config->currentMode);''', '''        instantMode = (nn != 0) ? module_config->currentMode : MODE_UNINITIALISED;
        controller->indicateMode(instantMode);''')],
  'a node with a number in setup, and the request for a number from a node that has none',
  'a numbered node whose setup is ended by an unnumbered node ends up uninitialised instead of back in normal mode',
'''Node n; n.toNormal(260);
n.ctl->putAction(ACT_RENEGOTIATE); n.run();
n.msg({OPC_RQNN, 0, 0});
auto r = n.msg({OPC_MODE, 1, 4, MODE_NORMAL});
CHECK(Node::has(r, {OPC_GRSP, 1, 4, OPC_MODE, SERVICE_ID_MNS, GRSP_OK}));''')

S('enum_ack_sticky', 'C11', [('src/CanService.cpp', '''  startedFromEnumMessage = fromENUM;
''', '''  startedFromEnumMessage = startedFromEnumMessage || fromENUM;
''')],
  'an enumeration by request followed later by one of another cause', 'once a node has enumerated by request every later enumeration is acknowledged too',
'''Node n; n.toNormal(260);
n.msg({OPC_ENUM, 1, 4}); g_now += 150; n.run();
CHECK(Node::has(n.sent(), {OPC_NNACK, 1, 4}));
n.can.out.clear();
n.ctl->putAction(ACT_START_CAN_ENUMERATION); n.run(); g_now += 150; n.run();
CHECK(!Node::has(n.sent(), {OPC_NNACK, 1, 4}));''')

S('clash_drops_msg', 'C12', [('src/CanService.cpp', '''    enumeration_required = true;
  }
''', '''    if (bCANenum)
    {
      // being resolved
      return;
    }
    enumeration_required = !bCANenum;
  }
''')],
  'a message from a node with the same CAN id arriving while this node enumerates', 'messages from a node with a clashing id are dropped during the enumeration',
'''Node n; n.toNormal(260); n.learn(true); n.teach(1, 2, 1, 0); n.learn(false);
int id = n.cfg->CANID;
n.ctl->putAction(ACT_START_CAN_ENUMERATION); n.run();
g_events.clear();
n.msg({OPC_ACON, 0, 1, 0, 2}, id);
CHECK(g_events.size() == 1);''')

S('clear_full', 'C13', [('src/CircularBuffer.h', '''  head = 0;
  tail = 0;
  full = false;''', '''  head = 0;
  tail = 0;''')],
  'clear called while the queue is exactly full', 'a queue cleared when full still claims to hold items',
'''CircularBuffer<int> b(3);
b.put(1); b.put(2); b.put(3);
b.clear();
CHECK(!b.available());
b.put(4);
CHECK(b.pop() == 4);
CHECK(!b.available());''', pre='#include <CircularBuffer.h>\n')

S('lmx_stall_from_start', 'C15', [('src/LongMessageService.cpp', '''      ++_receive_context[i]->incoming_bytes_received;
      _receive_context[i]->last_fragment_received = millis();
''', '''      ++_receive_context[i]->incoming_bytes_received;
      if (j == 4 && _receive_context[i]->receive_buffer_index >= _receive_buffer_len / 2)
      {
        _receive_context[i]->last_fragment_received = millis();
      }
''')],
  'a slow but steady sender: fragments spread over more than the timeout in total while none is late',
  'the stall timer is not restarted by every fragment, so a slow transfer is reported as timed out',
'''static byte ids[] = {9};
NodeOpt o; o.longm = 2; Node n(o); n.toNormal(260);
n.lmx->allocateContexts(2, 64, 2);
n.lmx->subscribe(ids, 1, h);
int len = 20;
n.msg({OPC_DTXC, 9, 0, 0, len, 0, 0, 0});
for (int s = 1; s <= 4; ++s) { g_now += 3000; n.lmx->process(); n.lmx->process(); n.msg({OPC_DTXC, 9, s, s, s, s, s, s}); }
CHECK(errors == 0);
CHECK(complete == 1);''', pre='''static int errors, complete;
static void h(void *, unsigned len, byte, byte st) { if (st == LONG_MESSAGE_COMPLETE && len == 20) ++complete; else ++errors; }
''')

S('gc_no_restart', 'C17', [('src/SerialGC.cpp', '''      // always check for 'start of message'
      if (c == ':') ''', '''      // check for 'start of message'
      if (c == ':' && (rxIndex == 0 || rxBuffer[1] == ':'))''')],
  'a frame broken off in the middle and followed directly by a complete one', 'the frame after a broken-off one is lost',
'''SerialGC gc; int got = 0;
for (char c : std::string(":SB020N9100:SB020N90010400FF;")) { g_serialIn.push_back(c); if (gc.available()) { CANFrame f = gc.getNextCanFrame(); ++got; CHECK(f.len == 5); } }
CHECK(got == 1);''', pre='#include <SerialGC.h>\n')

S('hb_seq_reset', 'C21', [('src/MinimumNodeService.cpp', '''      heartbeatSequence++;
      lastHeartbeat = millis();''', '''      heartbeatSequence++;
      lastHeartbeat += heartRate;''')],
  'a pause of several heartbeat periods without processing, or heartbeat switched on long after start', 'heartbeats are sent in a burst to catch up',
'''Node n; n.toNormal(260);
g_now += 60000; n.run();
n.can.out.clear();
n.msg({OPC_MODE, 1, 4, MODE_HEARTBEAT_ON});
n.run();
CHECK(n.can.out.size() <= 1);''')

S('press_gap', 'C22', [('src/Switch.cpp', '''    _prevStateDuration = _lastStateDuration;
    _lastStateDuration = millis() - _lastStateChangeTime;
    _lastStateChangeTime = millis();''', '''    _prevStateDuration = _lastStateDuration;
    _lastStateDuration = millis() - _lastStateChangeTime;
    if (_currentState == _pressedState || _lastStateDuration > 50)
    {
      _lastStateChangeTime = millis();
    }''')],
  'a bounce: a press of under 50 ms, released and pressed again', 'after a very short press the duration of the release is counted from the press; nothing else shows it but the time of the last state change',
'''Switch s(7, LOW); g_pin[7] = HIGH; s.run(); 
g_now += 1000; g_pin[7] = LOW; s.run();
g_now += 20; g_pin[7] = HIGH; s.run();
CHECK(s.getLastStateDuration() == 20);
g_now += 100;
CHECK(s.getCurrentStateDuration() == 100);''', pre='#include <Switch.h>\n')

S('coe_filter', 'C23', [('src/EventConsumerService.cpp', '''      if (!(controller->getParam(PAR_FLAGS) & PF_COE))''', '''      if (!(controller->getParam(PAR_FLAGS) & PF_COE) || (controller->getParam(PAR_FLAGS) & PF_LRN))''')],
  'a node with the consume-own-events service producing while in learn mode', 'own events are not consumed while in learn mode',
'''NodeOpt o; o.coe = true; Node n(o); n.toNormal(260); n.learn(true);
n.teach(260, 1, 1, 4); g_events.clear(); n.can.out.clear();
n.eps->sendEvent(true, 4); n.run();
CHECK(n.can.out.size() == 1);
CHECK(g_events.size() == 1);''')

S('setup_both', 'C24', [('src/MinimumNodeService.cpp', '''      if (instantMode == MODE_SETUP)
      {
        instantMode = module_config->currentMode;''', '''      if (instantMode == MODE_SETUP && (nn != 0 || module_config->nodeNum == 0))
      {
        instantMode = module_config->currentMode;''')],
  'two nodes in setup at once, one renegotiating an existing number and one new', 'two nodes are in setup together and take the same number',
'''Node a, b; a.toNormal(260);
a.ctl->putAction(ACT_RENEGOTIATE); a.run();
b.can.out.clear();
b.ctl->putAction(ACT_CHANGE_MODE); b.run();
for (auto &m : b.sent()) if (m.size() && m[0] >= 0) a.msg(m);
a.msg({OPC_SNN, 3, 1}); b.msg({OPC_SNN, 3, 1});
CHECK(b.cfg->nodeNum == 0x301);
CHECK(a.cfg->nodeNum == 260);''')

S('reset_keeps_last_nv', 'C25', [('src/Configuration.cpp', '''  storage->write(LOCATION_FLAGS, 0);
  setResetFlag(); ''', '''  setHeartbeat(false);
  setResetFlag(); ''')],
  'event acknowledge on before a factory reset', 'a factory reset keeps the event-acknowledge setting',
'''Node n; n.toNormal(260);
n.cfg->setEventAck(true);
n.msg({OPC_NNRSM, 1, 4}); n.run(); n.restart();
CHECK(n.cfg->nodeNum == 0);
CHECK(!n.cfg->eventAck);
CHECK(!n.cfg->heartbeat);''')

S('sui_ev_byte', 'C27', [('src/SerialUserInterface.cpp', '''        Serial << F("  using ") << (uev * modconfig->EE_BYTES_PER_EVENT)''', '''        Serial << F("  using ") << (byte)(uev * modconfig->EE_BYTES_PER_EVENT)''')],
  'an event table holding more than 255 bytes of events', "the 'e' command reports the number of bytes in use modulo 256",
'''NodeOpt o; o.sui = true; o.events = 60; Node n(o); n.toNormal(260); n.learn(true);
for (int i = 0; i < 50; ++i) n.teach(300, i + 1, 1, 0);
g_serialOut.clear(); g_serialIn.push_back('e'); n.run();
CHECK(g_serialOut.find("using 300 of 360 bytes") != std::string::npos);''')

S('nn_changes_byte', 'C18', [('src/MinimumNodeService.h', 'unsigned int diagNodeNumberChanges = 0;', 'byte diagNodeNumberChanges = 0;')],
  'more than 255 node number assignments since the start', 'the counter of node number changes wraps at 256 instead of 65536',
'''Node n; n.toNormal(260);
for (int i = 0; i < 260; ++i) { n.ctl->putAction(ACT_RENEGOTIATE); n.run(5); n.msg({OPC_SNN, 1, 4}); }
auto r = n.msg({OPC_RDGN, 1, 4, 1, 5});
CHECK(r.size() == 1 && r[0] == (Bytes{OPC_DGN, 1, 4, 1, 5, 1, 5}));''')

SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

S('near_identity_taken', 'C01', [('src/EventTeachingService.cpp', '''        if (!Configuration::nnenEquals(eventTableNNEN, &msg->data[1]))''',
'''        // Reject only if this is really another event.
        if (Configuration::getTwoBytes(eventTableNNEN) != Configuration::getTwoBytes(&msg->data[1]) || eventTableNNEN[3] != msg->data[4])''')],
  'an event taught by index to an entry that holds an event of the same node whose number differs in the high byte only', 'a learn-by-index request naming a near identity is accepted as if the entry held it',
'''Node n; n.toNormal(260); n.learn(true);
n.msg({OPC_EVLRNI, 1, 44, 1, 5, 0, 1, 7}); n.msg({OPC_EVLRNI, 1, 44, 2, 5, 0, 2, 9});
byte e[4]; n.cfg->readEvent(0, e);
byte was[4] = {1, 44, 1, 5}, now[4] = {1, 44, 2, 5};
// either the entry was renamed or the request changed nothing
CHECK(!memcmp(e, now, 4) || (!memcmp(e, was, 4) && n.cfg->getEventEVval(0, 2) != 9));
CHECK(n.msg({OPC_NENRD, 1, 4, 0}).size() == 1);''')

S('renamed_by_second_ev', 'C03', [('src/EventTeachingService.cpp', '''        module_config->updateEvHashEntry(index);

        // respond with WRACK
        controller->sendWRACK();  // Deprecated in favour of GRSP_OK
        controller->sendGRSP(OPC_EVLRNI''', '''        if (evIndex == 1 || module_config->getEvTableEntry(index) == 0)
        {
          module_config->updateEvHashEntry(index);
        }

        // respond with WRACK
        controller->sendWRACK();  // Deprecated in favour of GRSP_OK
        controller->sendGRSP(OPC_EVLRNI''')],
  'an entry re-taught by index to another identity starting with its second variable', 'events for the new identity of the entry no longer reach the handler until the next restart',
'''Node n; n.toNormal(260); n.learn(true);
n.msg({OPC_EVLRNI, 1, 44, 0, 5, 0, 1, 7}); n.msg({OPC_EVLRNI, 1, 44, 0, 6, 0, 2, 9});
byte e[4]; n.cfg->readEvent(0, e);
g_events.clear(); n.msg({OPC_ACON, e[0], e[1], e[2], e[3]});
CHECK(g_events.size() == 1);''')

S('first_default_hash', 'C05', [('src/EventProducerService.cpp', '''  module_config->updateEvHashEntry(index);
  
  return index;''', '''  if (eventNum != 1 || index == 0)
  {
    module_config->updateEvHashEntry(index);
  }
  
  return index;''')],
  'the first produced event created when other events are taught already', 'status requests for that event go unanswered until the next restart',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(300, 1, 2, 3); n.learn(false);
n.eps->sendEvent(true, 9); n.run();
CHECK(Node::has(n.sent(), {OPC_ACON, 1, 4, 0, 1}));
g_requests.clear(); n.msg({OPC_AREQ, 1, 4, 0, 1});
CHECK(g_requests.size() == 1);''')

S('high_input_ignored', 'C05', [('src/EventProducerService.cpp', '''      if (module_config->getEventEVval(index, 1) != 0)''', '''      if ((module_config->getEventEVval(index, 1) & 0x7F) != 0)''')],
  'a status request for an event produced by input 128', 'a status request for the event of input 128 is not passed to the application',
'''Node n; n.toNormal(260); n.learn(true);
for (int v : {1, 127, 128, 129, 255}) { n.teach(260, v, 1, v); g_requests.clear(); n.msg({OPC_AREQ, 1, 4, 0, v}); CHECK(g_requests.size() == 1); }''')

S('enum_no_canid', 'C07', [('src/CanService.cpp', '''  if (isThisNodeNumber(nn))
  {
    // DEBUG_SERIAL << F("> initiating enumeration")''', '''  if (isThisNodeNumber(nn) || (nn == 0 && controller->getModuleCANID() == 0))
  {
    // DEBUG_SERIAL << F("> initiating enumeration")''')],
  'a node with a number but without a CAN id, and an enumeration request for number 0', 'a node that has a number obeys an enumeration request addressed to node number 0',
'''Node n; n.toNormal(260); g_now += 200; n.run();
n.cfg->setCANID(0); n.restart(); n.can.out.clear();
CHECK(n.cfg->nodeNum == 260 && n.cfg->CANID == 0);
n.msg({OPC_ENUM, 0, 0}); g_now += 150; n.run();
CHECK(n.can.out.empty()); CHECK(n.cfg->CANID == 0);''')

S('release_keeps_number', 'C09', [('src/Configuration.cpp', '''  setModuleMode(MODE_UNINITIALISED);
  setNodeNum(0);''', '''  setModuleMode(MODE_UNINITIALISED);
  if (lowByte(nodeNum) || !CANID)
  {
    setNodeNum(0);
  }
  else
  {
    nodeNum = 0;
  }''')],
  'a node number that is a multiple of 256 released, then a restart', 'the released node number is back after a restart',
'''Node n; n.toNormal(512); g_now += 200; n.run();
CHECK(n.cfg->nodeNum == 512);
n.msg({OPC_MODE, 2, 0, 0xFF}); CHECK(n.cfg->nodeNum == 0);
n.restart(); CHECK(n.cfg->nodeNum == 0);''')

S('hb_waits_for_bus', 'C21', [('src/MinimumNodeService.cpp', '''    if ((millis() - lastHeartbeat) > heartRate)''', '''    if ((millis() - lastHeartbeat) > heartRate && !controller->pendingAction())''')],
  'a node that always has another message waiting when it looks at the time', 'a busy node sends no heartbeats',
'''Node n; n.toNormal(260); n.msg({OPC_MODE, 1, 4, MODE_HEARTBEAT_ON}); n.run(); n.can.out.clear();
int beats = 0;
for (int s = 0; s < 120; ++s)
{
  g_now += 500;
  if (s == 0) for (int i = 0; i < 3; ++i) { n.frame({OPC_ACON, 9, 9, 0, 1}); n.ctl->process(); }
  for (int k = 0; k < 8; ++k) { if (k % 2 == 0) n.frame({OPC_ACON, 9, 9, 0, 1}); n.ctl->process(); }
  for (auto &m : n.sent()) beats += m.size() && m[0] == OPC_HEARTB;
  n.can.out.clear();
}
CHECK(beats >= 5);''')

S('reset_reversed_layout', 'C25', [('src/Configuration.cpp', '''  for (byte i = 0; i < EE_NUM_NVS; i++)
  {
    writeNV(i + 1, 0);''', '''  // The byte in front of the events belongs to the variables.
  byte count = EE_NUM_NVS - (EE_EVENTS_START < EE_NVS_START);
  for (byte i = 0; i < count; i++)
  {
    writeNV(i + 1, 0);''')],
  'a module that stores its variables behind its events, and a factory reset', 'the last node variable is not zero after a factory reset',
'''NodeOpt o; o.evStart = 10; o.nvStart = 10 + 8 * 6; Node n(o); n.toNormal(260);
n.msg({OPC_NVSET, 1, 4, 4, 77});
n.msg({OPC_NNRSM, 1, 4}); n.run(); n.restart();
for (int i = 1; i <= 4; ++i) CHECK(n.cfg->readNV(i) == 0);''')

S('param_behind', 'C19', [('src/MinimumNodeService.cpp', '''      else if (paran <= controller->getParam(PAR_NUM))''', '''      else if (paran <= controller->getParam(PAR_NUM) + 1)''')],
  'a request for the parameter one beyond the last', 'the answer discloses a byte behind the parameter block',
'''Node n; n.toNormal(260);
static unsigned char block[40]; memset(block, 0x5A, sizeof block); memcpy(block, n.params, 21);
n.ctl->setParams(block);
auto a = n.msg({OPC_RQNPN, 1, 4, 21}); memset(block + 21, 0xA5, 19); auto b = n.msg({OPC_RQNPN, 1, 4, 21});
CHECK(a == b);''')


SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
exec(open('/verif/tools/seedspecs/canstub.py').read())

S('poll_when_empty', 'C26', [('src/CAN2515.cpp', '''  if (_poll)
  {            // not using interrupts''', '''  if (_poll && !canp->available())
  {            // not using interrupts''')],
  'polling mode, and frames that keep coming while earlier ones have not been fetched yet', 'the two buffers of the controller are not emptied in time and frames are lost',
CANTOP + '''  can.begin(true);
  int n = 0; CANMessage m; m.len = 1;
  // two frames arrive between two rounds of the module, for a while; then it catches up
  for (int i = 0; i < 4; ++i) { for (int k = 0; k < 2; ++k) { m.data[0] = ++n; ACAN2515::cur->arrive(m); } if (can.available()) can.getNextCanFrame(); }
  int got = 4; while (can.available()) { can.getNextCanFrame(); ++got; }
  CHECK(got == n);
  return 0;
}
''', sh=CANSH, plain=True, stub={'ACAN2515.h': ACAN.replace('void poll() { ++polls; }', 'std::deque<CANMessage> hw; void arrive(const CANMessage &m) { if (hw.size() < 2) hw.push_back(m); } void poll() { for (auto &m : hw) q.push_back(m); hw.clear(); }')})

S('osc_floor', 'C26', [('src/CAN2515.cpp', '''  _osc_freq = freq;''', '''  // The controller needs a clock of at least 8 MHz.
  _osc_freq = freq < 8000000UL ? 8000000UL : freq;''')],
  'a crystal slower than 8 MHz', 'the bit rate is calculated for another crystal than the one on the board',
CANTOP + '''  for (unsigned long f : {4000000ul, 8000000ul, 16000000ul, 20000000ul}) { can.setOscFreq(f); CHECK(can.begin(true)); CHECK(ACAN2515::cur->freq == f); }
  return 0;
}
''', sh=CANSH, plain=True, stub={'ACAN2515.h': ACAN})

S('reset_on_error_only', 'C27', [('src/SerialUserInterface.cpp', '''        transport->reset();
''', '''        if (transport->errorStatus() != 0)
        {
          transport->reset();
        }
''')],
  "the 'y' command while the transport reports no error", 'the transport is not reset',
'''struct C : TestCan { int n = 0; unsigned es = 0; void reset() override { ++n; } unsigned errorStatus() override { return es; } } can;
MemStorage st; Configuration cfg(&st); cfg.EE_NVS_START = 10; cfg.EE_NUM_NVS = 1; cfg.EE_EVENTS_START = 20; cfg.EE_MAX_EVENTS = 1; cfg.EE_NUM_EVS = 1; cfg.begin();
SerialUserInterface sui(&can); Controller ctl(&cfg, {&sui}); unsigned char p[21] = {20}; ctl.setParams(p); ctl.begin();
for (int i = 0; i < 2; ++i) { can.es = i * 9; can.n = 0; g_serialIn.push_back('y'); for (int k = 0; k < 20; ++k) ctl.process(); CHECK(can.n == 1); }''')

S('press_time_short', 'C22', [('src/LEDUserInterface.cpp', '''      unsigned long press_time = pushButton.getLastStateDuration();''', '''      uint16_t press_time = pushButton.getLastStateDuration();''')],
  'a button held for more than 65 seconds', 'a very long press acts like a short one',
'''for (unsigned long t : {5000ul, 65000ul, 65700ul, 66800ul, 140000ul})
{
  NodeOpt o; o.ui = true; Node n(o); n.toNormal(260);
  g_pin[6] = LOW; n.run(); g_now += t; n.run(); g_pin[6] = HIGH; n.run();
  CHECK(n.cfg->currentMode != MODE_NORMAL);
}''')

S('commission_postpones_hb', 'C21', [('src/MinimumNodeService.cpp', '''  controller->getModuleConfig()->setModuleNormalMode(nn);
''', '''  Configuration *config = controller->getModuleConfig();
  config->setModuleNormalMode(nn);
  if (config->heartbeat)
  {
    lastHeartbeat = millis() + (nn & 0x8000 ? heartRate : 0); // spread the heartbeats of the nodes
  }
''')],
  'a node with heartbeats on that is given a number from 32768', 'a heartbeat is sent out of turn as a time in the future counts as long ago',
'''Node n; n.toNormal(260); n.msg({OPC_MODE, 1, 4, MODE_HEARTBEAT_ON});
auto beats = [&] { int b = 0; for (auto &m : n.sent()) b += m.size() && m[0] == OPC_HEARTB; return b; };
n.can.out.clear(); for (int i = 0; i < 2000 && !beats(); ++i) { g_now += 10; n.run(3); }
CHECK(beats() == 1);
n.ctl->putAction(ACT_RENEGOTIATE); n.run(); g_now += 200; n.run(); n.msg({OPC_SNN, 0x90, 1});
CHECK(n.cfg->nodeNum == 0x9001);
for (int i = 0; i < 200; ++i) { g_now += 10; n.run(3); }
CHECK(beats() == 0);''')

S('enum_of_other', 'C12', [('src/CanService.cpp', '''  memcpy(action.vlcbMessage.data, canFrame.data, canFrame.len);''', '''  if (bCANenum && enumeration_required && canFrame.data[0] == OPC_ENUM)
  {
    // already enumerating
    return;
  }
  memcpy(action.vlcbMessage.data, canFrame.data, action.vlcbMessage.len);''')],
  'a request for another node to enumerate, sent by a node with the same CAN id while this node enumerates', 'the message is dropped at the CAN boundary',
'''struct Spy : Service { int n = 0; VlcbServiceTypes getServiceID() const override { return SERVICE_ID_HIDDEN; } byte getServiceVersionID() const override { return 1; } void process(const Action *a) override { if (a && a->actionType == ACT_MESSAGE_IN) ++n; } } spy;
MemStorage st; st.mem[0] = MODE_NORMAL; st.mem[1] = 5; st.mem[2] = 1; st.mem[3] = 4; st.mem[4] = 0;
Configuration cfg(&st); cfg.EE_NVS_START = 10; cfg.EE_NUM_NVS = 1; cfg.EE_EVENTS_START = 20; cfg.EE_MAX_EVENTS = 1; cfg.EE_NUM_EVS = 1; cfg.begin();
TestCan can; CanService cs(&can); Controller ctl(&cfg, {&cs, &spy}); unsigned char p[21] = {20}; ctl.setParams(p); ctl.begin();
ctl.putAction(ACT_START_CAN_ENUMERATION); for (int i = 0; i < 5; ++i) ctl.process();
for (int i = 0; i < 2; ++i) { CANFrame f; memset(&f, 0, sizeof f); f.id = 0x580 | 5; f.len = 3; f.data[0] = OPC_ENUM; f.data[1] = 3; f.data[2] = 3; can.in.push_back(f); for (int k = 0; k < 10; ++k) ctl.process(); CHECK(spy.n == i + 1); }''')

S('clear_few_evs', 'C04', [('src/EventProducerService.cpp', '''  for (byte i = 2; i <= module_config->EE_NUM_EVS; i++)''', '''  for (byte i = 2; i <= module_config->EE_NUM_EVS && i < MAX_CLEARED_EVS; i++)'''),
    ('src/EventProducerService.cpp', '''void EventProducerService::begin()''', '''// Variables above this are not used by produced events.
static const byte MAX_CLEARED_EVS = 64;

void EventProducerService::begin()''')],
  'more than 63 event variables and a table entry used before', 'a produced event that gets its identity by itself takes over variables of a forgotten event',
'''NodeOpt o; o.events = 3; o.evs = 100; Node n(o); n.toNormal(260); n.learn(true);
n.teach(300, 1, 90, 77); n.teach(300, 1, 3, 78); n.msg({OPC_EVULN, 1, 44, 0, 1});
n.eps->sendEvent(true, 9); n.run();
for (int i = 0; i < 3; ++i) { byte e[4]; n.cfg->readEvent(i, e); if (e[0] == 1 && e[1] == 4) { CHECK(n.cfg->getEventEVval(i, 3) == 0); CHECK(n.cfg->getEventEVval(i, 90) == 0); } }''')

S('learn_survives_setup', 'C02', [('src/EventTeachingService.cpp', '''  bLearn = false;
''', '''  // An event acknowledging node is being taught by hand.
  bLearn = bLearn && controller->getModuleConfig()->eventAck;
''')],
  'FILLED IN BELOW', '', '')
SEEDS.pop()

S('twin_hash', 'C03', [('src/Configuration.cpp', '''    if (evhashtbl[i] == tmphash)
    {''', '''    // three equal neighbours are the pattern of a cleared table
    if (evhashtbl[i] == tmphash && !(i > 1 && evhashtbl[i - 1] == tmphash && evhashtbl[i - 2] == tmphash))
    {''')],
  'three neighbouring entries whose identities have the same hash', 'events of the third entry are not found',
'''NodeOpt o; o.events = 8; Node n(o); n.toNormal(260); n.learn(true);
for (int x = 0; x < 200; ++x)
{
  for (int j = 0; j < 6; ++j) n.msg({OPC_EVLRNI, x + j, x + j, j, j, j, 1, 3});
  for (int j = 0; j < 6; ++j) { g_events.clear(); n.msg({OPC_ACON, x + j, x + j, j, j}); CHECK(g_events.size() == 1); }
}''')

S('list_byte', 'C01', [('src/EventTeachingService.cpp', '''      response.data[5] = i;
      response.data[6] = module_config->getEventEVval(index, i);
      controller->sendMessage(&response);
    }
  }
  else''', '''      response.data[5] = i;
      response.data[6] = module_config->getEventEVval(index, i & 0x1F);
      controller->sendMessage(&response);
    }
  }
  else''')],
  'a request for all variables of an event with more than 31 variables', 'variables from the 32nd on are reported with the values of others',
'''NodeOpt o; o.evs = 40; Node n(o); n.toNormal(260); n.learn(true);
for (int v = 1; v <= 40; ++v) n.teach(300, 1, v, v + 100);
for (auto &m : n.msg({OPC_REQEV, 1, 44, 0, 1, 0})) if (m[0] == OPC_EVANS && m[5]) CHECK(m[6] == m[5] + 100);''')

SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

S('last_lookup', 'C03', [('src/EventConsumerService.cpp', '''  byte index = controller->getModuleConfig()->findExistingEvent(nn, en);
''', '''  // An event often comes several times in a row. Don't search for it again.
  byte index = lastIndex;
  if (index >= controller->getModuleConfig()->EE_MAX_EVENTS || nn != lastNN || en != lastEN
      || controller->getModuleConfig()->getEvTableEntry(index) == 0)
  {
    index = controller->getModuleConfig()->findExistingEvent(nn, en);
    lastIndex = index;
    lastNN = nn;
    lastEN = en;
  }
'''), ('src/EventConsumerService.h', '''  unsigned int diagEventsConsumed = 0;''', '''  unsigned int diagEventsConsumed = 0, lastNN = 0, lastEN = 0;
  byte lastIndex = 0xFF;''')],
  'an event is received, its place in the table is given to another event, and the first one is received again', 'the application is called for an event that is not taught any more',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(1, 7, 1, 0); g_events.clear(); n.msg({OPC_ACON, 0, 1, 0, 7}); CHECK(g_events.size() == 1);
n.msg({OPC_EVULN, 0, 1, 0, 7}); n.teach(2, 9, 1, 0);
g_events.clear(); n.msg({OPC_ACON, 0, 1, 0, 7}); CHECK(g_events.empty());
n.msg({OPC_ACON, 0, 2, 0, 9}); CHECK(g_events.size() == 1);''')

S('enum_time_short', 'C11', [('src/CanService.h', '''  unsigned long CANenumTime;''', '''  uint16_t CANenumTime;''')],
  'an enumeration that starts after the node has been running for more than 65 seconds', 'the enumeration ends before the answers arrive and an id in use is chosen',
'''for (unsigned long t : {1000ul, 65400ul, 66000ul, 200000ul})
{
  g_now = t; Node n; n.toNormal(260); g_now = t;
  n.msg({OPC_ENUM, 1, 4});
  for (int id = 1; id < 4; ++id) { n.frame({}, id); n.run(20); }
  g_now += 150; n.run();
  CHECK(n.cfg->CANID == 4);
}''')

S('blink_time_short', 'C22', [('src/LED.h', '''  unsigned long _lastTime, _pulseStart;''', '''  uint16_t _lastTime;
  unsigned long _pulseStart;''')],
  'setup mode entered after the node has been running for more than 65 seconds', 'the yellow LED flickers instead of flashing once a second',
'''for (unsigned long t : {1000ul, 66000ul, 400000ul})
{
  NodeOpt o; o.ui = true; g_now = 1000; Node n(o); g_now = t; n.run();
  n.ctl->putAction(ACT_CHANGE_MODE); g_now += 600; n.run();
  int changes = 0, was = g_pin[5];
  for (int i = 0; i < 400; ++i) { g_now += 10; for (int k = 0; k < 3; ++k) { n.run(1); changes += g_pin[5] != was; was = g_pin[5]; } }
  CHECK(changes >= 6 && changes <= 9);
}''')

S('taught_count_byte', 'C18', [('src/EventTeachingService.h', '''  unsigned int diagEventsTaught = 0;''', '''  byte diagEventsTaught = 0;''')],
  'more than 255 events taught since start', 'the diagnostic counter starts again from zero',
'''Node n; n.toNormal(260); n.learn(true);
for (int i = 0; i < 300; ++i) n.teach(1, 7, 2, i & 255);
bool ok = false; for (int s = 1; s < 8; ++s) { auto r = n.msg({OPC_RDGN, 1, 4, s, 1}); if (Node::has(r, {OPC_DGN, 1, 4, s, 1, 300 >> 8, 300 & 255})) ok = true; }
CHECK(ok);''')

S('round_robin_mask', 'C15', [('src/LongMessageService.cpp', '''	++context;
	context = (context >= _num_send_contexts) ? 0 : context;''', '''	context = (context + 1) & (_num_send_contexts - 1);''')],
  'a number of send contexts that is not a power of two', 'messages in some of the contexts are never sent',
'''for (int k = 1; k < 7; ++k)
{
  NodeOpt o; o.longm = 2; Node n(o); n.toNormal(260); n.lmx->allocateContexts(1, 10, k);
  const char *text = "hello world";
  for (int s = 0; s < k; ++s) CHECK(n.lmx->sendLongMessage(text, 11, s + 1));
  for (int i = 0; i < 500; ++i) { g_now += 30; n.lmx->process(); n.run(5); }
  CHECK(n.lmx->is_sending() == 0);
}''')

S('nv_last_read', 'C06', [('src/NodeVariableService.cpp', '''      // respond with NVANS
      controller->sendMessageWithNN(OPC_NVANS, nvindex, module_config->readNV(nvindex));
    }
  }
}

void NodeVariableService::handleSetNV(''', '''      // respond with NVANS
      if (nvindex != lastIndex)
      {
        lastValue = module_config->readNV(nvindex);
        lastIndex = nvindex;
      }
      controller->sendMessageWithNN(OPC_NVANS, nvindex, lastValue);
    }
  }
}

void NodeVariableService::handleSetNV('''), ('src/NodeVariableService.cpp', '''      module_config->writeNV(msg->data[3], msg->data[4]);

      // respond with NVANS''', '''      module_config->writeNV(msg->data[3], msg->data[4]);
      lastIndex = 0;

      // respond with NVANS'''), ('src/NodeVariableService.h', '''  void handleReadNV(const VlcbMessage *msg, unsigned int nn);''', '''  byte lastIndex = 0, lastValue = 0;  // the variable read last
  void handleReadNV(const VlcbMessage *msg, unsigned int nn);''')],
  'a variable is read, set with NVSET and read again with no other in between', 'the old value is reported',
'''Node n; n.toNormal(260);
n.msg({OPC_NVSET, 1, 4, 2, 5}); CHECK(Node::has(n.msg({OPC_NVRD, 1, 4, 2}), {OPC_NVANS, 1, 4, 2, 5}));
n.msg({OPC_NVSET, 1, 4, 2, 6}); CHECK(Node::has(n.msg({OPC_NVRD, 1, 4, 2}), {OPC_NVANS, 1, 4, 2, 6}));''')

S('ffff_node_free', 'C01', [('src/Configuration.cpp', '''  // empty slots have all four bytes set to 0xff
  if (nnenEquals(evarray, unused_entry))''', '''  // empty slots have all bytes set to 0xff
  if (getTwoBytes(&evarray[0]) == 0xFFFF)''')],
  'an event of node number 65535 is taught', 'it counts as an unused entry',
'''Node n; n.toNormal(260); n.learn(true);
n.teach(0xFFFF, 7, 1, 0); CHECK(Node::has(n.msg({OPC_RQEVN, 1, 4}), {OPC_NUMEV, 1, 4, 1}));''')

S('lm_clock_wrap', 'C14', [('src/LongMessageService.cpp', '''	if (_send_buffer_index < _send_buffer_len && (millis() - _last_fragment_sent >= _msg_delay))''', '''	if (_send_buffer_index < _send_buffer_len && (millis() >= _last_fragment_sent + _msg_delay))''')],
  'a message that is being sent when the millisecond clock wraps', 'the rest of the message waits for weeks, or is sent without delays',
'''for (unsigned long back : {100000ul, 90ul, 70ul, 50ul, 45ul, 30ul, 25ul, 10ul})
{
  g_now = 1000; NodeOpt o; o.longm = 1; Node n(o); n.toNormal(260);
  g_now = 0ul - back; n.can.out.clear();
  CHECK(n.lms->sendLongMessage("0123456789abcdefghijklmnopqrst", 30, 4)); n.run(5);
  long last = -1000; size_t seen = n.can.out.size(); int late = 0;
  for (long i = 0; i < 400; ++i) { ++g_now; n.lms->process(); n.run(2); if (n.can.out.size() != seen) { if (seen > 1 && i - last < 20) ++late; seen = n.can.out.size(); last = i; } }
  CHECK(!n.lms->is_sending() && n.can.out.size() == 7 && !late);
}''')

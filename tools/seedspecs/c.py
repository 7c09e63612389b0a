SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
GC = '#include <GridConnect.h>\n'
exec(open('/verif/tools/seedspecs/canstub.py').read())

S('gc_remote_len', 'C16', [('src/GridConnect.cpp', '''      for (int i=0; i < frame->len; i++)''', '''      for (int i=0; i < frame->len && !(frame->rtr && frame->ext); i++)''')],
  'an extended remote frame with a length', 'the length of an extended remote frame is lost',
'''CANFrame f, g; char t[40]; memset(&f, 0, sizeof f); f.ext = true; f.rtr = true; f.id = 77; f.len = 3;
CHECK(encodeGridConnect(t, &f)); CHECK(decodeGridConnect(t, &g)); CHECK(g.rtr && g.ext && g.len == 3);''', pre=GC)

S('clear_all_one_more', 'C19', [('src/EventTeachingService.cpp', '''      for (byte e = 0; e < module_config->EE_MAX_EVENTS; e++)
      {
        module_config->cleareventEEPROM(e);''', '''      for (byte e = 0; e <= module_config->EE_MAX_EVENTS; e++)
      {
        module_config->cleareventEEPROM(e);''')],
  'clearing all events on a node with something stored behind the event table', 'clearing all events overwrites the storage behind the event table',
'''Node n; n.toNormal(260);
n.st->limit = 10 + n.o.nvs + n.o.events * (4 + n.o.evs);
n.learn(true); n.teach(300, 1, 1, 3);
n.msg({OPC_NNCLR, 1, 4});
CHECK(n.st->outside == 0);''')

S('nv_read_high', 'C06', [('src/NodeVariableService.cpp', '''    if (nvindex > module_config->EE_NUM_NVS)
    {
      controller->sendGRSP(OPC_NVRD, getServiceID(), CMDERR_INV_NV_IDX);''', '''    if ((nvindex & 0x3F) > module_config->EE_NUM_NVS)
    {
      controller->sendGRSP(OPC_NVRD, getServiceID(), CMDERR_INV_NV_IDX);''')],
  'a read of a variable number far above the last one', 'reading a variable number of 64 and above is answered with a byte of another area',
'''Node n; n.toNormal(260);
for (int i : {64, 65, 67}) CHECK(Node::has(n.msg({OPC_NVRD, 1, 4, (byte)i}), {OPC_CMDERR, 1, 4, CMDERR_INV_NV_IDX}));''')

S('nv_all_byte', 'C06', [('src/NodeVariableService.cpp', '''      for (int i = 1; i <= module_config->EE_NUM_NVS; ++i)
      {
        controller->sendMessageWithNN(OPC_NVANS''', '''      for (byte i = 1; i <= module_config->EE_NUM_NVS && i < 0xC0; ++i)
      {
        controller->sendMessageWithNN(OPC_NVANS''')],
  'a node with 192 node variables or more', 'reading all variables stops before the last one',
'''NodeOpt o; o.nvs = 200; Node n(o); n.toNormal(260);
n.msg({OPC_NVSET, 1, 4, 200, 9});
auto r = n.msg({OPC_NVRD, 1, 4, 0}); for (int i = 0; i < 300; ++i) n.run();
CHECK(Node::has(n.sent(), {OPC_NVANS, 1, 4, 200, 9}) || Node::has(r, {OPC_NVANS, 1, 4, 200, 9}));''')

S('can_rtr_len', 'C26', [('src/CAN2515.cpp', '''  frame.rtr = message.rtr;''', '''  frame.rtr = message.rtr && message.len == 0;''')],
  'a remote frame received with a length', 'a received remote frame with a length arrives as a data frame',
CANTOP + '''  can.begin(true);
  CANMessage m; m.id = 5; m.rtr = true; m.len = 0; ACAN2515::cur->q.push_back(m); m.len = 4; ACAN2515::cur->q.push_back(m);
  for (int i = 0; i < 2; ++i) { CHECK(can.available()); VLCB::CANFrame f = can.getNextCanFrame(); CHECK(f.rtr && f.id == 5); }
  return 0;
}
''', sh=CANSH, plain=True, stub={'ACAN2515.h': ACAN})

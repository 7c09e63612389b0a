// Stand-in for the ESP object: only Configuration.cpp is compiled as if for that
// platform, so that the harness sees when the processor is restarted.
#pragma once
namespace hw { extern int restarts; extern bool throwOnRestart; struct Restart {}; }
struct EspStub
{
  void restart() { ++hw::restarts; if (hw::throwOnRestart) throw hw::Restart(); }
  unsigned getFreeHeap() { return 1000; }
};
static EspStub ESP;

// The module parameters as compiled for one processor.
#include <Arduino.h>
#include <Parameters.cpp>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(params_, PROC)(unsigned char *out, int nvs, int evs, int events)
{
  alignas(VLCB::Configuration) static char raw[sizeof(VLCB::Configuration)];
  memset(raw, 0, sizeof raw);
  VLCB::Configuration *c = reinterpret_cast<VLCB::Configuration *>(raw);
  c->EE_NUM_NVS = nvs; c->EE_NUM_EVS = evs; c->EE_MAX_EVENTS = events;
  VLCB::Parameters p(*c);
  memcpy(out, p.getParams(), 21);
}

// The three JSON back ends in one program.
#ifndef BACKENDS_H
#define BACKENDS_H
#include "dap/protocol.h"
#include "dap/serialization.h"
#include "dap/typeof.h"
#include "dap/types.h"

#include "jsoncpp_json_serializer.h"
#include "nlohmann_json_serializer.h"
#include "rapid_json_serializer.h"

#include <functional>
#include <string>

namespace be {
const int kCount = 3;
inline const char* name(int k) { return k == 0 ? "nlohmann" : k == 1 ? "rapid" : "jsoncpp"; }
// Calls f with a new serializer of back end k; returns the text.
template <typename F>
std::string encodeWith(int k, F f) {
  if (k == 0) { dap::json::NlohmannSerializer s; f(static_cast<dap::Serializer*>(&s)); return s.dump(); }
  if (k == 1) { dap::json::RapidSerializer s; f(static_cast<dap::Serializer*>(&s)); return s.dump(); }
  dap::json::JsonCppSerializer s;
  f(static_cast<dap::Serializer*>(&s));
  return s.dump();
}
template <typename F>
void decodeWith(int k, const std::string& text, F f) {
  if (k == 0) { dap::json::NlohmannDeserializer d(text); f(static_cast<const dap::Deserializer*>(&d)); return; }
  if (k == 1) { dap::json::RapidDeserializer d(text); f(static_cast<const dap::Deserializer*>(&d)); return; }
  dap::json::JsonCppDeserializer d(text);
  f(static_cast<const dap::Deserializer*>(&d));
}
template <typename T>
bool encode(int k, const T& v, std::string* text) {
  bool ok = false;
  *text = encodeWith(k, [&](dap::Serializer* s) { ok = s->serialize(v); });
  return ok;
}
template <typename T>
bool decode(int k, const std::string& text, T* v) {
  bool ok = false;
  decodeWith(k, text, [&](const dap::Deserializer* d) { ok = d->deserialize(v); });
  return ok;
}
}  // namespace be
#endif

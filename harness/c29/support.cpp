#include "support.h"

#include "dap/typeinfo.h"
#include "nlohmann_json_serializer.h"

#include <nlohmann/json.hpp>

#include <cstdio>

static int failures = 0;

std::string enc(const dap::TypeInfo* type, const void* p) {
  dap::json::NlohmannSerializer s;
  if (!type->serialize(&s, p)) return "<serialize failed>";
  return s.dump();
}
bool dec(const dap::TypeInfo* type, void* p, const std::string& json) {
  dap::json::NlohmannDeserializer d(json);
  return type->deserialize(&d, p);
}
bool same(const std::string& a, const std::string& b) {
  auto x = nlohmann::json::parse(a, nullptr, false);
  auto y = nlohmann::json::parse(b, nullptr, false);
  return !x.is_discarded() && !y.is_discarded() && x == y;
}
void bad(const std::string& what) {
  if (failures++ < 10) printf("%s\n", what.c_str());
}
int done() {
  if (failures == 0) printf("ok\n");
  return failures ? 1 : 0;
}

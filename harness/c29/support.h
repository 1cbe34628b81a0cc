// What the generated check programs of C29 use.
#ifndef c29_support_h
#define c29_support_h
#include <string>
namespace dap {
class TypeInfo;
}
std::string enc(const dap::TypeInfo* type, const void* p);
bool dec(const dap::TypeInfo* type, void* p, const std::string& json);
bool same(const std::string& a, const std::string& b);
void bad(const std::string& what);
int done();
#endif

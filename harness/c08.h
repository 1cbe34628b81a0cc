// C08: the messages and types of the DAP specification, as a table.
#pragma once

#define V_NO_BACKENDS
#include "values.h"

#include "dap/session.h"

#include <map>

namespace h {

// Declarations of V<T> for every struct of the table.
#define C08_CHUNK -1
#define F(MEMBER, WIRE, TYPE)
#define M_TYPE(S, NAME, FIELDS)                    \
  template <>                                      \
  struct V<dap::S> {                               \
    static dap::S gen(Case& c, const Gen& g);      \
    static J toJ(const dap::S& s);                 \
  };
#define M_RESPONSE(S, NAME, FIELDS) M_TYPE(S, NAME, FIELDS)
#define M_EVENT(S, NAME, FIELDS) M_TYPE(S, NAME, FIELDS)
#define M_REQUEST(S, RESPONSE, NAME, FIELDS) M_TYPE(S, NAME, FIELDS)
#include "c08_table.inc"
#undef C08_CHUNK
#undef F
#undef M_TYPE
#undef M_RESPONSE
#undef M_EVENT
#undef M_REQUEST

struct Entry {
  enum Kind { Type_, Response_, Event_, Request_ };
  struct Field {
    std::string member, wire, type;
  };
  Kind kind = Type_;
  std::string name, wire, response;
  std::vector<Field> fields;
  const dap::TypeInfo* info = nullptr;
  std::function<std::shared_ptr<void>(Case&, const Gen&)> gen;
  std::function<std::shared_ptr<void>()> fresh;
  std::function<J(const void*)> toJ;
  // Registers a handler. A request handler returns the response object, or
  // nothing for an error.
  std::function<void(dap::Session*, std::function<std::shared_ptr<void>(J)>)> handle;
  // Registers a response-sent handler for the request's response.
  std::function<void(dap::Session*, std::function<void(J, std::string)>)> handleSent;
  // Sends a request. The result returns false until the response has arrived.
  using Result = std::function<bool(J* body, std::string* error)>;
  std::function<Result(dap::Session*, const void*)> request;
  std::function<void(dap::Session*, const void*)> event;
};

std::map<std::string, Entry>& table();

template <typename T>
Entry mkEntry(const char* name, const char* wire, Entry::Kind kind) {
  Entry e;
  e.kind = kind;
  e.name = name;
  e.wire = wire;
  e.info = dap::TypeOf<T>::type();
  e.gen = [](Case& c, const Gen& g) -> std::shared_ptr<void> {
    return std::make_shared<T>(V<T>::gen(c, g));
  };
  e.fresh = []() -> std::shared_ptr<void> { return std::make_shared<T>(); };
  e.toJ = [](const void* p) { return V<T>::toJ(*static_cast<const T*>(p)); };
  return e;
}

template <typename T>
void eventFns(Entry& e) {
  e.handle = [](dap::Session* s, std::function<std::shared_ptr<void>(J)> f) {
    s->registerHandler([f](const T& v) { f(V<T>::toJ(v)); });
  };
  e.event = [](dap::Session* s, const void* p) { s->send(*static_cast<const T*>(p)); };
}

template <typename T, typename R>
void requestFns(Entry& e) {
  static_assert(std::is_same<R, typename T::Response>::value, "response type");
  e.handle = [](dap::Session* s, std::function<std::shared_ptr<void>(J)> f) {
    s->registerHandler([f](const T& v) -> dap::ResponseOrError<R> {
      auto r = f(V<T>::toJ(v));
      if (!r) return dap::Error("refused");
      return *static_cast<R*>(r.get());
    });
  };
  e.handleSent = [](dap::Session* s, std::function<void(J, std::string)> f) {
    s->registerSentHandler([f](const dap::ResponseOrError<R>& r) {
      f(r.error ? J::null() : V<R>::toJ(r.response), r.error.message);
    });
  };
  e.request = [](dap::Session* s, const void* p) -> Entry::Result {
    auto f = std::make_shared<dap::future<dap::ResponseOrError<R>>>(
        s->send(*static_cast<const T*>(p)));
    return [f](J* body, std::string* error) {
      if (f->wait_for(std::chrono::seconds(0)) != dap::future_status::ready) return false;
      auto r = f->get();
      *error = r.error.message;
      if (!r.error) *body = V<R>::toJ(r.response);
      return true;
    };
  };
}


}  // namespace h

// Contract of the JSON conversion: what was printed from a message parses back to that
// message, anything else is refused.  The text itself is not encoded.
#pragma once
#include <string>
#include <string_view>
#include "google/protobuf/repeated_field.h"
namespace google::protobuf::util {
class Status {
  bool ok_ = true;

 public:
  Status() = default;
  explicit Status(bool ok) : ok_(ok) {}
  bool ok() const { return ok_; }
  std::string message() const { return {}; }
  std::string ToString() const { return {}; }
};
struct JsonPrintOptions {
  bool add_whitespace = false, always_print_primitive_fields = false, always_print_enums_as_ints = false, preserve_proto_field_names = false;
};
using JsonOptions = JsonPrintOptions;
struct JsonParseOptions {
  bool ignore_unknown_fields = false, case_insensitive_enum_parsing = false;
};
template <typename M> Status MessageToJsonString(const M &m, std::string *out, const JsonPrintOptions & = {}) {
  return Status{m.SerializeToString(out)};
}
template <typename M> Status JsonStringToMessage(const std::string &s, M *m, const JsonParseOptions & = {}) {
  return Status{m->ParseFromString(s)};
}
}  // namespace google::protobuf::util

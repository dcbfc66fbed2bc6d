// Stand-in for the json-schema-validator library, which is not installed here.
// It accepts every document; schema validation itself is out of scope.
#pragma once
#include "nlohmann/json.hpp"
namespace nlohmann::json_schema {
class json_validator {
public:
  void set_root_schema(const nlohmann::json &) {}
  nlohmann::json validate(const nlohmann::json &) { return {}; }
};
} // namespace nlohmann::json_schema

// Running bant commands in-process.
#ifndef VERIF_CLI_H
#define VERIF_CLI_H
#include <sstream>
#include <string>
#include <vector>

#include "bant/cli-commands.h"
#include "bant/session.h"

namespace cli {
using Strs = std::vector<std::string>;
struct Result {
  std::string out, info;
  int status = 0;
};
inline Result Run(const Strs &args, const bant::CommandlineFlags &fl = {}) {
  std::stringstream out, info;
  bant::Session session(&out, &info, fl);
  std::vector<std::string_view> sv(args.begin(), args.end());
  Result r;
  r.status = (int)bant::RunCliCommand(session, sv);
  r.out = out.str();
  r.info = info.str();
  return r;
}
// RFC-4180 reading of CSV.
inline bool ParseCsv(const std::string &s, std::vector<Strs> *rows) {
  size_t i = 0;
  while (i < s.size()) {
    Strs row;
    while (true) {
      std::string cell;
      if (i < s.size() && s[i] == '"') {
        ++i;
        while (true) {
          if (i >= s.size()) return false;
          if (s[i] == '"') {
            if (i + 1 < s.size() && s[i + 1] == '"') {
              cell += '"';
              i += 2;
              continue;
            }
            ++i;
            break;
          }
          cell += s[i++];
        }
      } else {
        while (i < s.size() && s[i] != ',' && s[i] != '\n' && s[i] != '\r') {
          if (s[i] == '"') return false;
          cell += s[i++];
        }
      }
      row.push_back(cell);
      if (i < s.size() && s[i] == ',') {
        ++i;
        continue;
      }
      break;
    }
    if (i < s.size() && s[i] == '\r') ++i;
    if (i < s.size() && s[i] != '\n') return false;
    ++i;
    rows->push_back(row);
  }
  return true;
}
// Runs command with CSV output; rows joined by '|', without header row.
inline Strs CsvRows(const Strs &args, bant::CommandlineFlags fl = {},
                    Result *res = nullptr, std::string *header = nullptr) {
  fl.output_format = bant::OutputFormat::kCSV;
  Result r = Run(args, fl);
  if (res) *res = r;
  std::vector<Strs> rows;
  Strs result;
  if (!ParseCsv(r.out, &rows)) return {"UNPARSABLE CSV " + r.out};
  for (size_t i = 0; i < rows.size(); ++i) {
    std::string line;
    for (size_t j = 0; j < rows[i].size(); ++j) {
      if (j) line += "|";
      line += rows[i][j];
    }
    if (i == 0) {
      if (header) *header = line;
    } else {
      result.push_back(line);
    }
  }
  return result;
}
inline std::string Join(const Strs &v, const char *sep = " ; ") {
  std::string r;
  for (const auto &s : v) r += (r.empty() ? "" : sep) + s;
  return r;
}
}  // namespace cli
#endif

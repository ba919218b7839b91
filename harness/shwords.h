// The words a POSIX shell makes of a line, if it is one simple command without
// any expansion.
#ifndef VERIF_SHWORDS_H
#define VERIF_SHWORDS_H
#include <string.h>

#include <optional>
#include <string>
#include <vector>

inline std::optional<std::vector<std::string>> ShellWords(const std::string &line) {
  std::vector<std::string> words;
  std::string cur;
  bool in_word = false;
  for (size_t i = 0; i < line.size(); ++i) {
    const char c = line[i];
    if (c == ' ' || c == '\t') {
      if (in_word) words.push_back(cur);
      cur.clear();
      in_word = false;
      continue;
    }
    if (c == '#' && !in_word) return std::nullopt;  // comment
    if (c == '~' && !in_word) return std::nullopt;
    if (strchr("|&;<>()$`*?\n", c)) return std::nullopt;
    if (strchr("{}!", c) && !in_word) return std::nullopt;  // reserved words
    if (c == '[' && line.find(']', i) != std::string::npos) return std::nullopt;
    if (c == '{' && line.find('}', i) != std::string::npos) return std::nullopt;
    in_word = true;
    if (c == '\'') {
      const size_t end = line.find('\'', i + 1);
      if (end == std::string::npos) return std::nullopt;
      cur += line.substr(i + 1, end - i - 1);
      i = end;
    } else if (c == '"') {
      for (++i;; ++i) {
        if (i >= line.size()) return std::nullopt;
        if (line[i] == '"') break;
        if (line[i] == '$' || line[i] == '`') return std::nullopt;
        if (line[i] == '\\') {
          if (i + 1 >= line.size()) return std::nullopt;
          if (strchr("$`\"\\", line[i + 1])) ++i;
        }
        cur += line[i];
      }
    } else if (c == '\\') {
      if (++i >= line.size()) return std::nullopt;
      cur += line[i];
    } else {
      cur += c;
    }
  }
  if (in_word) words.push_back(cur);
  return words;
}
// Readable; commands that are not valid stay as they are.
inline std::string ShowCommand(const std::string &line) {
  const auto words = ShellWords(line);
  if (!words) return "not a command: " + line;
  std::string result;
  for (auto &w : *words) result += "<" + w + ">";
  return result;
}
#endif

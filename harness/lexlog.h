// lexlog.h - log of what a generated lexer does, shared by the checks and the lexers that they generate
#ifndef LEXLOG_H
#define LEXLOG_H
#include <string>
#include <vector>
#include <ostream>
#include <streambuf>

namespace lexlog {

struct Ev {
  enum Type { RULE, END, CHAR, STATE, NOTE, ECHO_, RET, THROW, OUT_OF_FUEL } type;
  long id;           // rule, character, state, note or returned value
  std::string text;  // matched or echoed text
  long line, first, col; // -1 when not known
};

struct Jam { };

struct Run : public std::streambuf {
  std::vector<Ev> ev;
  std::vector<std::string> inputs; // the input, those taken by wrap(), and included ones
  size_t next;
  int fuel, depth, source;
  std::string text; // of a nested input
  Run() : next(1), fuel(0), depth(0), source(0) { }
  bool tick() { if (fuel-- > 0) return true; add(Ev::OUT_OF_FUEL, 0); return false; }
  void add(Ev::Type t, long id) { Ev e = { t, id, "", -1, -1, -1 }; ev.push_back(e); }
  void rule(long id, const char *s, size_t n, size_t line, size_t first, size_t col)
  {
    Ev e = { Ev::RULE, id, std::string(s, n), static_cast<long>(line), static_cast<long>(first), static_cast<long>(col) };
    ev.push_back(e);
  }
  void end(long id, size_t line) { Ev e = { Ev::END, id, "", static_cast<long>(line), -1, -1 }; ev.push_back(e); }
  void chr(long c) { add(Ev::CHAR, c); }
  void state(long c) { add(Ev::STATE, c); }
  void note(long c) { add(Ev::NOTE, c); }
  void str(const char *) { }
  void chr_(char) { }
  // output of the lexer
  int overflow(int c) { if (c != EOF) { char b = static_cast<char>(c); xsputn(&b, 1); } return 0; }
  std::streamsize xsputn(const char *s, std::streamsize n)
  {
    if (n > 0)
    {
      if (ev.empty() || ev.back().type != Ev::ECHO_) add(Ev::ECHO_, 0);
      ev.back().text.append(s, static_cast<size_t>(n));
    }
    return n;
  }
};

}
#endif

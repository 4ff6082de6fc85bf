// Reading the files that the writers produce, independently of the library.
#ifndef VS_IO_HPP
#define VS_IO_HPP
#include "topo.hpp"
#include <fstream>
#include <string>
#include <deque>
typedef std::vector<double> DV; typedef std::vector<std::string> SV;
static std::string slurp(std::string const &n) { std::ifstream f(n.c_str()); CHECKM(f.good(), "the file exists"); std::string s, l; while (std::getline(f, l)) { s += l; s += '\n'; } return s; }
static std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static std::string inum(int x) { std::ostringstream o; o << x; return o.str(); }
static bool exists(std::string const &n) { std::ifstream f(n.c_str()); return f.good(); }
static void spill(std::string const &n, std::string const &s) { std::ofstream f(n.c_str()); f << s; }
static DV numbers(std::string const &s) { std::istringstream is(s); DV v; double d; while (is >> d) v.push_back(d); return v; }
static IV ints(std::string const &s) { std::istringstream is(s); IV v; int d; while (is >> d) v.push_back(d); return v; }
// the elements of an XML text: name, attributes and the text up to the next tag
struct Tag { std::string name, text; std::map<std::string, std::string> a; };
static std::vector<Tag> xml(std::string const &s)
{
  std::vector<Tag> r; std::size_t p = 0; while ((p = s.find('<', p)) != std::string::npos) { std::size_t e = s.find('>', p); CHECKM(e != std::string::npos, "tags are closed"); std::string t = s.substr(p + 1, e - p - 1); Tag g; std::size_t q = t.find_first_of(" \t\n"); g.name = t.substr(0, q);
    while (q != std::string::npos) { q = t.find_first_not_of(" \t\n/?", q); if (q == std::string::npos) break; std::size_t i = t.find('=', q); CHECKM(i != std::string::npos, "attributes have a value"); std::size_t b = t.find('"', i), c = t.find('"', b + 1); CHECKM(b != std::string::npos && c != std::string::npos, "values are quoted"); g.a[t.substr(q, i - q)] = t.substr(b + 1, c - b - 1); q = c + 1; }
    std::size_t n = s.find('<', e); g.text = s.substr(e + 1, n == std::string::npos ? n : n - e - 1); r.push_back(g); p = e; }
  return r;
}
// i if x is in (4 i - 1, 4 i + 2)
__attribute__((optnone, noinline)) static int which(double x) { for (int i = 0; i < 12; ++i) if (x < 4 * i + 2) { if (x > 4 * i - 1) return i; return -1; } return -1; }
static int toint(std::string const &s) { IV v = ints(s); CHECKM(v.size() == 1, "a number"); return v[0]; }
// the tokens t[from..to) with separators of a style: blanks, one per line, or the line structure given by "\n" tokens
static std::string text(SV const &t, std::size_t n, int style) { std::string r; for (std::size_t i = 0; i < n && i < t.size(); ++i) r += t[i] == "\n" ? style ? "\n" : " " : t[i] + (style == 1 ? "\n" : " "); return r; }
#endif

// tokens of arbitrary texts
#include "h.h"
#ifndef VF_NOPRIV
#define private public
#endif
#include "helpers/Parser.h"
#undef private
template <class P>
static auto bufsize(P &p, int) -> typename std::enable_if<std::is_array<decltype(p.buffer)>::value, size_t>::type
{
  return sizeof(p.buffer);
}
template <class P>
static size_t bufsize(P &, long)
{
  return (size_t)1 << 30;
}
static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
// the tokens of a text; ended: the last one is followed by whitespace
static std::vector<std::string> tokens(const std::string &s, bool &ended)
{
  std::vector<std::string> r;
  size_t i = 0;
  ended = true;
  while (i < s.size()) {
    if (sp(s[i])) {
      ++i;
      continue;
    }
    if (s[i] == '#') {
      while (i < s.size() && s[i] != '\n')
        ++i;
      continue;
    }
    std::string t;
    while (i < s.size() && !sp(s[i]))
      t += s[i++];
    r.push_back(t);
    ended = i < s.size();
  }
  return r;
}
static void one(const std::string &s)
{
  CASE("text '" + s.substr(0, 700) + "'");
  bool ended;
  auto ts = tokens(s, ended);
  size_t safe = 0;  // tokens that must be delivered
  while (safe < ts.size() && ts[safe].size() <= 63 && (ended || safe + 1 < ts.size()))
    ++safe;
  auto go = [&](size_t n) {
    std::istringstream is(s);
    Parser p(is);
    for (size_t i = 0; i < n; ++i) {
      // three ways of asking
      std::string got;
      if (i % 3 == 0)
        got = p.getNextToken();
      else if (i % 3 == 1) {
        p.getNextToken();
        got = p.getToken();
      } else {
        bool eq = p.getNextTokenEquals(ts[i].c_str());
        CHECK(eq, "token %zu is not '%s' but '%.200s'", i, ts[i].c_str(), p.getToken());
        bool ne = p.getTokenEquals((ts[i] + "x").c_str());
        CHECK(!ne, "token %zu equals another text", i);
        got = p.getToken();
      }
      CHECK(got.size() < bufsize(p, 0), "token %zu of %zu characters was delivered from a buffer of %zu", i, got.size(),
            bufsize(p, 0));
      CHECK(got == ts[i], "token %zu is '%.200s', expected '%.200s'", i, got.c_str(), ts[i].c_str());
    }
  };
  if (safe == ts.size() || rint_(0, 3)) {
    go(safe);
  }
  if (safe < ts.size()) {  // the next one is too long, or the text ends within it: stopping is fine, another token is not
    bool ok = survives([&] { go(safe + 1); });
    (void)ok;
  }
}
void run()
{
  // lengths around the buffer size
  for (int n = 1; n <= 140; ++n) {
    std::string t(n, 'a');
    for (int i = 0; i < n; ++i)
      t[i] = 'a' + i % 26;
    one(t + " next ");
    one("x " + t + "\ny z\n");
    one("# " + t + t + t + "\n" + t + "\n");
    if (n < 64) one(t + " " + t + " " + std::string(63, 'q') + "\n" + t + "\n");
  }
  one("");
  one(" ");
  one("#\nabc #x y\n \t#z\n#w\n d#e f\n");
  one("a\n");
  one("a");
  int n = vf_thorough ? 200000 : 20000;
  for (int t = 0; t < n; ++t) {
    std::string s;
    int len = rint_(0, 30) ? rint_(0, 40) : rint_(0, 400);
    int mode = rint_(0, 3);
    const char *al[] = {"ab# \n", "a1,:{}[]\"#-+.e \t\n", "ab \n\t\v\f\r#", "xyz# \n"};
    size_t m = strlen(al[mode]);
    for (int i = 0; i < len; ++i)
      if (mode == 3 && rint_(0, 2) == 0)
        s += (char)rint_(-128, -2);
      else
        s += al[mode][rnd() % m];
    if (rint_(0, 5)) s += '\n';
    // NUL-free; texts whose remainder is unterminated cost a process each
    bool ended;
    auto ts = tokens(s, ended);
    if (!ended && rint_(0, 20)) s += '\n';
    one(s);
  }
  // typed values inside tokens
  for (int t = 0; t < 2000; ++t) {
    int a = (int)rnd();
    unsigned b = (unsigned)rnd();
    unsigned long c = rnd() >> rint_(0, 60);
    float f = rint_(-1000, 1000) * .37f;
    double d = runit() * std::pow(10., rint_(-30, 30));
    std::string s = fmt("i: %d, %u, %lu, %.9g, %.17g },\n", a, b, c, f, d);
    CASE(s);
    std::istringstream is(s);
    Parser p(is);
    int a2;
    unsigned b2;
    unsigned long c2;
    float f2;
    double d2;
    p.getNextToken();
    p.parseExpected("i:");
    p.getNextToken();
    p.parse(a2);
    p.parseExpected(",");
    p.getNextToken();
    p.parse(b2);
    p.parseExpected(",");
    p.getNextToken();
    p.parse(c2);
    p.parseExpected(",");
    p.getNextToken();
    p.parse(f2);
    p.parseExpected(",");
    p.getNextToken();
    p.parse(d2);
    CHECK(a == a2 && b == b2 && c == c2 && f == f2 && d == d2, "a value was read differently");
    CHECK(p.getNextTokenEquals("},"), "the token after the values is '%s'", p.getToken());
  }
}

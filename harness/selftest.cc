// Not a property: containers and algorithms a change to the library might use, on symbolic values.
#include "sym.h"
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <stdexcept>
#include <forward_list>
#include <queue>
#include <tuple>
#include <bitset>

extern "C" void harness()
{
  uint32_t v[5];
  for (auto& x : v) { x = static_cast<uint32_t>(sym_int("v", 32)); }
  const unsigned part = static_cast<unsigned>(sym_param("part", 0));
  if (part == 0)
  {
    std::map<uint32_t, uint32_t> m; std::set<uint32_t> s; std::multimap<uint32_t, int> mm;
    for (auto x : v) { m[x] = x + 1; s.insert(x); mm.emplace(x, 1); }
    sym_check(m.size() == s.size(), "sizes");
    sym_check(mm.size() == 5, "multi");
    uint32_t last = 0; bool f = true; unsigned n = 0;
    for (auto& p : m) { sym_check(f || p.first > last, "sorted"); sym_check(p.second == p.first + 1, "value"); last = p.first; f = false; ++n; }
    sym_check(n == m.size(), "count");
    n = 0;
    for (auto it = s.rbegin(); it != s.rend(); ++it) { sym_check(n == 0 || *it < last, "reverse"); last = *it; ++n; }
    sym_check(n == s.size(), "count");
    m.erase(v[1]); m.erase(v[3]);
    sym_check(m.count(v[1]) == 0 && m.count(v[3]) == 0, "erased");
    sym_check(m.count(v[0]) == (v[0] != v[1] && v[0] != v[3]), "kept");
    s.erase(s.begin(), s.lower_bound(v[2]));
    sym_check(!s.empty() && *s.begin() == v[2], "lower bound");
    auto m2 = m; m.clear();
    for (auto& p : m2) sym_check(p.second == p.first + 1, "copied");
  }
  else if (part == 1)
  {
    for (auto& x : v) x &= 3;
    std::unordered_map<uint32_t, uint32_t> m; std::unordered_set<uint32_t> s;
    for (auto x : v) { m[x] += 1; s.insert(x); }
    unsigned n = 0;
    for (auto& p : m) n += p.second;
    sym_check(n == 5, "count");
    sym_check(m.size() == s.size(), "sizes");
    m.erase(v[0]);
    sym_check(!m.count(v[0]), "erased");
    for (uint32_t i = 10; i < 60; ++i) m[i] = i;
    for (uint32_t i = 10; i < 60; ++i) sym_check(m.at(i) == i, "found");
  }
  else if (part == 2)
  {
    std::vector<uint32_t> a(v, v + 4), b;
    std::sort(a.begin(), a.end());
    sym_check(std::is_sorted(a.begin(), a.end()), "sorted");
    std::deque<uint32_t> d(v, v + 5);
    d.push_front(7); d.pop_back();
    sym_check(d.size() == 5 && d.front() == 7 && d.back() == v[3], "deque");
    std::list<uint32_t> l(v, v + 5);
    l.remove_if([&](uint32_t x) { return x == v[0]; });
    sym_check(std::find(l.begin(), l.end(), v[0]) == l.end(), "list");
    std::unique_ptr<uint32_t[]> u(new uint32_t[3]); u[2] = v[2];
    std::shared_ptr<uint32_t> sp = std::make_shared<uint32_t>(v[1]);
    auto sp2 = sp; sp.reset();
    sym_check(*sp2 == v[1] && u[2] == v[2], "pointers");
    std::function<uint32_t(uint32_t)> fn = [&](uint32_t x) { return x ^ v[0]; };
    std::transform(v, v + 5, std::back_inserter(b), fn);
    sym_check(b[0] == 0 && std::accumulate(b.begin(), b.end(), 0u) == std::accumulate(b.rbegin(), b.rend(), 0u), "transform");
    std::priority_queue<uint32_t> q;
    for (unsigned i = 0; i < 3; ++i) q.push(v[i]);
    sym_check(q.top() >= v[0] && q.top() >= v[2], "heap");
    std::stable_sort(a.begin(), a.end(), std::greater<uint32_t>());
    sym_check(a[0] >= a[1], "stable");
  }
  else
  {
    std::string s = "abc";
    s += static_cast<char>(v[0]); s.append(20, 'x'); s.insert(0, "zz");
    sym_check(s.size() == 26 && s[5] == static_cast<char>(v[0]) && s.find('c') == 4, "string");
    std::string t = std::to_string(12345);
    sym_check(t == "12345", "to_string");
    bool caught = false;
    try { std::vector<int> z(3); (void)z.at(v[0] | 4); } catch (const std::out_of_range& e) { caught = e.what() != nullptr; }
    sym_check(caught, "at");
    caught = false;
    try { throw std::runtime_error(t + "!"); } catch (const std::exception& e) { caught = e.what() != nullptr; }
    sym_check(caught, "throw");
    std::bitset<40> bs; bs.set(3); sym_check(bs.count() == 1, "bitset");
    auto tu = std::make_tuple(1, v[0], 2u); sym_check(std::get<1>(tu) == v[0], "tuple");
    static std::array<uint32_t, 4> ar{{1, 2, 3, 4}};
    sym_check(std::accumulate(ar.begin(), ar.end(), 0u) == 10, "array");
    thread_local unsigned tl = 0; ++tl; sym_check(tl == 1, "thread_local");
  }
  sym_cover("end");
}

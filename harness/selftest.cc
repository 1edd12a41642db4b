// Exercises what code under test may use from the C++ runtime; run by ./check SELF.
#include "vp.hh"
#include <unordered_map>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <string>
#include <numeric>
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <optional>
#include <variant>
#include <any>
#include <shared_mutex>
#include <mutex>
#include <atomic>
#include <bit>
#include <tuple>
#include <valarray>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <span>
#include <ranges>
#include <limits>
#include <complex>
VP_ENTRY(umap) { std::unordered_map<int,int> m; for (int i = 0; i < 40; ++i) m[i*7] = i; vp_eqi(m[21], 3, "u"); m.erase(21); vp_eqi(m.count(21), 0, "u2"); vp_eqi(m.size(), 39, "u3"); }
VP_ENTRY(umapsym) { std::unordered_map<int,int> m; for (int i = 0; i < 4; ++i) m[i] = i*i; int k = vp_int("k", 0, 3); vp_eqi(m.at(k), k*k, "us"); }
VP_ENTRY(ustr) { std::unordered_map<std::string,int> m; m["abc"] = 3; m["a long string that is not small enough for sso"] = 4; vp_eqi(m["abc"], 3, "us"); }
VP_ENTRY(erase) { std::map<int,int> m; for (int i = 0; i < 10; ++i) m[i] = i; m.erase(4); m.erase(0); int s = 0; for (auto& p : m) s += p.second; vp_eqi(s, 41, "map"); std::set<int> q{3,1,2}; q.erase(1); vp_eqi(*q.begin(), 2, "set"); auto m2 = m; vp_eqi(m2.size(), 8, "copy"); }
VP_ENTRY(list) { std::list<int> l{3,1,2}; l.push_front(9); l.sort(); vp_eqi(l.front(), 1, "list"); l.remove(1); vp_eqi(l.size(), 3, "n"); l.reverse(); vp_eqi(l.front(), 9, "r"); }
VP_ENTRY(deque) { std::deque<int> d; for (int i = 0; i < 300; ++i) d.push_back(i); d.pop_front(); vp_eqi(d[1], 2, "deque"); }
VP_ENTRY(str) { std::string s = "hello"; s += " world, this is a long string"; vp_eqi(s.size(), 34, "len"); vp_check(s.find("world") == 6, "find"); std::string t = s.substr(0, 5); vp_check(t == "hello", "sub"); vp_check(std::to_string(42) == "42", "tostring"); t.append(3, 'x'); t.insert(0, "y"); vp_check(t < s == false, "cmp"); t.clear(); vp_check(t.empty(), "e"); }
VP_ENTRY(math) { double x = vp_real("x", 1, 2); vp_eq(std::hypot(3.0, 4.0), 5, "hypot"); vp_eq(std::fma(x, x, 1.0), x*x+1, "fma"); vp_eq(std::pow(x, 3), x*x*x, "pow"); vp_eq(std::cbrt(8.0), 2, "cbrt"); vp_check(std::isfinite(x) && !std::isnan(x), "finite"); vp_check(!std::signbit(x), "signbit"); vp_eq(std::copysign(x, -1.0), -x, "copysign"); vp_eq(std::max({x, 1.0, 0.5}), x, "max"); vp_eq(std::abs(-x), x, "abs"); vp_eq(std::trunc(2.5), 2, "trunc"); vp_eq(std::nearbyint(2.2), 2, "near"); vp_eq(std::exp(0.0), 1, "exp"); vp_eq(std::tgamma(4.0), 6, "tgamma"); vp_eq(std::ldexp(1.0, 3), 8, "ldexp"); vp_eq(std::lerp(0.0, 2.0, 0.5), 1, "lerp"); }
VP_ENTRY(hyp) { double x = vp_real("x", 1, 2), y = vp_real("y", 1, 2); double h = std::hypot(x, y); vp_eq(h*h, x*x+y*y, "hypot"); double g = std::hypot(x, y, 1.0); vp_eq(g*g, x*x+y*y+1, "hypot3"); }
VP_ENTRY(sgn) { double x = vp_real("x", -2, 2); vp_eq(std::copysign(x, x) , x, "copysign"); vp_check(std::signbit(x) == (x < 0), "signbit"); double f = std::floor(x); vp_check(f <= x, "floor"); }
VP_ENTRY(fn) { std::function<int(int)> f = [](int x) { return x+1; }; auto g = f; vp_eqi(g(3), 4, "fn"); auto b = std::bind(f, 4); vp_eqi(b(), 5, "bind"); }
VP_ENTRY(ptr) { auto p = std::make_shared<int>(4); std::weak_ptr<int> w = p; auto q = p; vp_eqi(p.use_count(), 2, "uc"); p.reset(); q.reset(); vp_check(w.expired(), "exp"); auto u = std::make_unique<int[]>(4); vp_eqi(u[2], 0, "u"); }
VP_ENTRY(var) { std::variant<int,double> v = 3; vp_eqi(std::get<int>(v), 3, "var"); v = 2.5; vp_eq(std::visit([](auto x) { return double(x); }, v), 2.5, "visit"); std::any a = 4; vp_eqi(std::any_cast<int>(a), 4, "any"); bool t = false; try { std::any_cast<double>(a); } catch (std::bad_any_cast&) { t = true; } vp_check(t, "bad"); std::optional<int> o; t = false; try { o.value(); } catch (std::bad_optional_access&) { t = true; } vp_check(t, "opt"); t = false; try { std::get<int>(v); } catch (std::bad_variant_access&) { t = true; } vp_check(t, "bv"); }
VP_ENTRY(mtx) { std::mutex m; { std::lock_guard g(m); } { std::unique_lock l(m, std::try_to_lock); vp_check(l.owns_lock(), "own"); } std::shared_mutex s; { std::shared_lock l(s); } { std::unique_lock l(s); } std::recursive_mutex r; { std::lock_guard g(r); } std::atomic<int> a{3}; a += 2; int e = 5; vp_check(a.compare_exchange_strong(e, 7), "cas"); vp_eqi(a.load(), 7, "at"); static std::once_flag f; int c = 0; std::call_once(f, [&]{ ++c; }); std::call_once(f, [&]{ ++c; }); vp_eqi(c, 1, "once"); static thread_local int tl = 4; vp_eqi(tl, 4, "tl"); }
VP_ENTRY(bits) { unsigned x = vp_int("x", 0, 255); unsigned n = 0; for (int i = 0; i < 8; ++i) n += (x >> i) & 1; vp_eqi(std::popcount(x), n, "popcount"); if (x) { vp_check((1u << (std::bit_width(x)-1)) <= x, "bw"); vp_check(x & (1u << std::countr_zero(x)), "ctz"); } vp_eqi(std::gcd(12, 18), 6, "gcd"); vp_eqi(std::rotl(x, 32), x, "rotl"); }
VP_ENTRY(srt) { std::vector<int> v; for (int i = 0; i < 30; ++i) v.push_back((i*17)%31); std::sort(v.begin(), v.end()); vp_check(std::is_sorted(v.begin(), v.end()), "sort"); std::stable_sort(v.begin(), v.end(), std::greater<>()); std::partial_sum(v.begin(), v.end(), v.begin()); std::nth_element(v.begin(), v.begin()+3, v.end()); std::rotate(v.begin(), v.begin()+2, v.end()); std::next_permutation(v.begin(), v.end()); vp_eqi(v.size(), 30, "n"); std::vector<double> w(5); std::iota(w.begin(), w.end(), 0.0); vp_eq(std::inner_product(w.begin(), w.end(), w.begin(), 0.0), 30, "ip"); vp_eq(std::transform_reduce(w.begin(), w.end(), 0.0, std::plus<>(), [](double x) { return x*x; }), 30, "tr"); std::vector<bool> b(70, true); b[3] = false; vp_eqi(std::count(b.begin(), b.end(), true), 69, "vb"); }
VP_ENTRY(sortsym) { int v[3]; for (int& x : v) x = vp_int("v", 0, 9); std::sort(v, v+3); vp_check(v[0] <= v[1] && v[1] <= v[2], "sorted"); auto [a, b] = std::minmax(v[0], v[2]); vp_check(a <= b, "mm"); }
VP_ENTRY(sst) { std::ostringstream s; s << "x" << 3 << 2.5; std::string t = s.str(); vp_check(true, "ss"); std::ostringstream u; u << "ab" << 'c' << -17 << std::string("long enough for the heap") << 5ul; vp_check(u.str() == "abc-17long enough for the heap5", "text"); }
VP_ENTRY(exc) { bool t = false; try { throw std::invalid_argument("x"); } catch (const std::logic_error& e) { t = true; } vp_check(t, "ia"); t = false; try { std::vector<int>(3).at(5); } catch (std::out_of_range&) { t = true; } vp_check(t, "oor"); t = false; try { std::map<int,int> m; m.at(3); } catch (std::out_of_range&) { t = true; } vp_check(t, "moor"); t = false; try { throw std::runtime_error(std::string("a") + "b"); } catch (std::exception& e) { t = true; } vp_check(t, "re"); t = false; try { throw std::domain_error("q"); } catch (std::exception&) { t = true; } vp_check(t, "de"); t = false; try { try { throw 3; } catch (...) { throw; } } catch (int i) { t = i == 3; } vp_check(t, "rethrow"); }
VP_ENTRY(rng) { int s = 0; for (int i : std::views::iota(0, 5) | std::views::filter([](int x) { return x%2; }) | std::views::transform([](int x) { return x*x; })) s += i; vp_eqi(s, 10, "rng"); std::valarray<double> a(2.0, 3); vp_eq((a*a).sum(), 12, "va"); std::complex<double> c(0, 1); vp_eq((c*c).real(), -1, "cx"); }
struct alignas(64) Al { double d[8]; };
VP_ENTRY(al) { auto p = std::make_unique<Al>(); p->d[3] = 2; vp_eq(p->d[3], 2, "al"); std::vector<Al> v(3); vp_eqi(reinterpret_cast<std::uintptr_t>(&v[1]) % 64, 0, "al"); long double l = 2.0L; l = l*l; vp_eq(double(l), 4, "ld"); float f = 0.5f; vp_eq(f+f, 1, "f"); __int128 z = 1; z <<= 70; vp_check(int(z >> 70) == 1, "i128"); }
VP_ENTRY(cerr) { std::cerr << "x" << 3 << std::endl; std::cout << 2.5 << "\n"; vp_check(true, "c"); }
VP_ENTRY(fti) { double x = vp_real("x", -3, 3); int i = int(x); vp_check(i <= 3 && i >= -3, "fti"); unsigned r = std::lround(x*x); vp_check(r <= 9, "lround"); }
VP_ENTRY(str2) { std::string s("abc"); s.push_back('d'); s.resize(20, 'x'); s.replace(0, 1, "zz"); vp_eqi(s.size(), 21, "sz"); std::string u = std::move(s); vp_check(u.compare("zz") > 0, "cmp"); vp_check(u.rfind('d') == 4, "rfind"); std::string_view v(u); vp_check(v.starts_with("zzb"), "sv"); }

// Development aid: library features a change of the code may start to use, under the executor and natively.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <barrier>
#include <bitset>
#include <charconv>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <filesystem>
#include <fmt/chrono.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include <fmt/std.h>
#include <format>
#include <forward_list>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <latch>
#include <list>
#include <map>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <ranges>
#include <regex>
#include <semaphore>
#include <set>
#include <shared_mutex>
#include <source_location>
#include <span>
#include <sstream>
#include <stack>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <cmath>
#include <cinttypes>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <climits>
using namespace std;
namespace fs = std::filesystem;
static void obs(const string& s) { hsx_observe("s", s.data(), s.size()); }
static int  app(int, char**) {
  long k = hsx_param("k", 0);
  unsigned char c = 'a'; 
  vector<int> v{5, 3, 9, 1};
  switch (k) {
  case 0: { map<string, int> m; m["b"] = 2; m["a"] = 1; m.erase("b"); m.emplace("c", 3); string s; for (auto& [a, b]: m) s += a + to_string(b); obs(s); break; }
  case 1: { unordered_map<string, int> m; for (int i = 0; i < 40; i++) m["k" + to_string(i)] = i; obs(to_string(m.size() + (size_t)m.at("k7"))); break; }
  case 2: { list<int> l{3, 1, 2}; l.sort(); l.push_front(0); string s; for (int x: l) s += to_string(x); obs(s); break; }
  case 3: { deque<int> d; for (int i = 0; i < 300; i++) d.push_back(i); d.pop_front(); obs(to_string(d.front() + d.back())); break; }
  case 4: { ostringstream o; o << setw(5) << setfill('0') << hex << uppercase << 255 << ' ' << dec << 1.5 << " x " << left << setw(4) << 7; obs(o.str()); break; }
  case 5: { istringstream i("12 abc 3.5\nline two"); int a; string b; double d; i >> a >> b >> d; string l; getline(i, l); getline(i, l); obs(to_string(a) + b + l); break; }
  case 6: { obs(to_string(stoi("42") + stol("7") + (long)stoul("ff", nullptr, 16))); try { stoi("x"); } catch (const exception& e) { obs(e.what()); } break; }
  case 7: { int x = 0; auto r = from_chars("123x", "123x" + 4, x); obs(to_string(x) + *r.ptr); char b[16]; auto t = to_chars(b, b + 16, 255, 16); obs(string(b, t.ptr)); break; }
  case 8: { stable_sort(v.begin(), v.end()); ranges::sort(v, greater<>{}); partial_sort(v.begin(), v.begin() + 2, v.end()); nth_element(v.begin(), v.begin() + 1, v.end()); obs(to_string(accumulate(v.begin(), v.end(), 0))); break; }
  case 9: { priority_queue<int> q; for (int x: v) q.push(x); q.pop(); obs(to_string(q.top())); set<int> s(v.begin(), v.end()); multiset<int> ms{1, 1}; obs(to_string(*s.lower_bound(4)) + to_string(ms.count(1))); break; }
  case 10: { obs(std::format("{:05d} {:x} {:>6} {}", 42, 255, "ab", 1.5)); break; }
  case 11: { obs(fmt::format("{:05d} {:X} {:>6} {:.3f} {}", 42, 255, "ab", 1.25, fmt::join(v, ","))); break; }
  case 12: { char b[64]; int n = snprintf(b, 64, "%05d %X %s %.2f %zu %c", 42, 255u, "str", 2.5, (size_t)9, 'q'); obs(string(b, (size_t)n)); break; }
  case 13: { fs::path p = "dir/file.txt"; obs(p.filename().string() + p.extension().string() + p.stem().string() + p.parent_path().string() + (p / "x").string()); break; }
  case 14: { ofstream("t.bin", ios::binary) << "hello"; obs(to_string(fs::exists("t.bin")) + to_string(fs::file_size("t.bin")) + to_string(fs::is_regular_file("t.bin"))); error_code ec; fs::remove("t.bin", ec); obs(to_string(fs::exists("t.bin")) + to_string((long)fs::file_size("t.bin", ec) == -1)); break; }
  case 15: { { ofstream f("u.txt"); f << "a\nb\n\nc"; } ifstream f("u.txt"); string l; string s; while (getline(f, l)) s += l + "|"; obs(s); fs::rename("u.txt", "w.txt"); fs::copy_file("w.txt", "x.txt"); fs::resize_file("x.txt", 2); obs(to_string(fs::file_size("x.txt"))); break; }
  case 16: { FILE* f = fopen("c.txt", "w"); fprintf(f, "%d\n", 5); fputs("zz", f); fwrite("ab", 1, 2, f); fclose(f); f = fopen("c.txt", "r"); char b[32]; fgets(b, 32, f); obs(b); size_t n = fread(b, 1, 32, f); obs(string(b, n)); fclose(f); break; }
  case 17: { std::function<int(int)> g = [&](int x) { return x + (int)v.size(); }; obs(to_string(g(1))); auto h = bind(g, placeholders::_1); obs(to_string(h(2))); break; }
  case 18: { shared_ptr<int> a = make_shared<int>(4); weak_ptr<int> w = a; a.reset(); obs(to_string(w.expired())); variant<int, string> vr = "x"s; obs(get<string>(vr)); optional<int> o; obs(to_string(o.value_or(3))); try { o.value(); } catch (const exception& e) { obs(e.what()); } break; }
  case 19: { atomic<int> n{0}; thread t([&] { n++; }); t.join(); jthread j([&] { n += 2; }); j.join(); obs(to_string(n.load())); break; }
  case 20: { mutex m; condition_variable cv; bool go = false; thread t([&] { unique_lock l(m); cv.wait(l, [&] { return go; }); }); { scoped_lock l(m); go = true; } cv.notify_one(); t.join(); obs("ok"); break; }
  case 21: { shared_mutex m; int x = 0; thread t([&] { unique_lock l(m); x = 1; }); t.join(); shared_lock l(m); obs(to_string(x)); break; }
  case 22: { counting_semaphore<4> s(0); thread t([&] { s.release(); }); s.acquire(); t.join(); latch l(1); l.count_down(); l.wait(); obs("ok"); break; }
  case 23: { auto f = async(launch::async, [] { return 5; }); obs(to_string(f.get())); promise<int> p; auto g = p.get_future(); p.set_value(2); obs(to_string(g.get())); break; }
  case 24: { once_flag o; int n = 0; call_once(o, [&] { n++; }); call_once(o, [&] { n++; }); obs(to_string(n)); break; }
  case 25: { this_thread::sleep_for(chrono::milliseconds(1)); auto t = chrono::steady_clock::now(); obs(to_string(chrono::steady_clock::now() >= t)); break; }
  case 26: { array<uint8_t, 4> a{1, 2, 3, 4}; span<uint8_t> s(a); obs(to_string(s.subspan(1).size())); bitset<8> b(5); obs(b.to_string()); obs(to_string(popcount(255u)) + to_string(countl_zero(1u)) + to_string(bit_cast<int>(a))); break; }
  case 27: { string s; for (int x: v | views::filter([](int i) { return i > 2; }) | views::transform([](int i) { return i * 2; })) s += to_string(x) + ","; for (int i: views::iota(0, 3)) s += to_string(i); obs(s); break; }
  case 28: { string s = "a,b,c"; string r; size_t p = 0; while ((p = s.find(',')) != string::npos) { r += s.substr(0, p); s.erase(0, p + 1); } s.insert(0, "zz"); s.replace(0, 1, "yy"); r += s; transform(r.begin(), r.end(), r.begin(), [](unsigned char ch) { return toupper(ch); }); obs(r + to_string(r.compare("X") < 0) + to_string(r.rfind('Y')) + to_string(r.find_first_not_of("AB"))); break; }
  case 29: { try { throw system_error(make_error_code(errc::no_space_on_device), "w"); } catch (const system_error& e) { obs(e.what()); } try { vector<int>().at(3); } catch (const out_of_range& e) { obs(e.what()); } break; }
  case 30: { cout << "n " << 42 << ' ' << 1.5 << ' ' << true << endl; cerr << "e\n"; clog << "c\n"; printf("p %d\n", 3); puts("q"); fflush(stdout); obs("ok"); break; }
  case 31: { regex r("([a-z]+)([0-9]+)"); smatch m; string s = "ab12"; obs(regex_match(s, m, r) ? m[2].str() : "no"); break; }
  case 32: { mt19937 g(5); obs(to_string(g())); uniform_int_distribution<int> d(0, 9); obs(to_string(d(g))); break; }
  case 33: { obs(to_string(lround(log2(1000.0) * 1000)) + to_string(lround(pow(2.0, 10.0))) + to_string(lround(sqrt(2.0) * 1000)) + to_string(ceil(2.1)) + to_string(fmod(7.5, 2))); break; }
  case 34: { int fd = open("r.bin", O_CREAT | O_WRONLY | O_TRUNC, 0644); obs(to_string(write(fd, "abc", 3))); close(fd); fd = open("r.bin", O_RDONLY); char b[8]; obs(to_string(read(fd, b, 8))); struct stat st; fstat(fd, &st); obs(to_string(st.st_size)); close(fd); break; }
  case 35: { string s = fmt::format("{}", fs::path("a/b")); obs(s); fmt::print("x{}\n", 1); fmt::print(stderr, "y\n"); fmt::print(cout, "z\n"); memory_buffer: { fmt::memory_buffer b; fmt::format_to(back_inserter(b), "{:02x}", 10); obs(fmt::to_string(b)); } break; }
  case 36: { ifstream f("nope"); obs(to_string(f.is_open()) + strerror(ENOENT)); ofstream o("k.txt"); o << "12345"; o.seekp(2); o << "x"; o.close(); fstream g("k.txt", ios::in | ios::out); g.seekg(0, ios::end); obs(to_string((long)g.tellg())); string all((istreambuf_iterator<char>(ifstream("k.txt").rdbuf())), {}); obs(all); break; }
  case 37: { if (const char* p = getenv("HOME_NOT_SET")) obs(p); else obs("none"); obs(to_string(isxdigit('f') != 0) + to_string(isspace(' ') != 0) + (char)tolower('A')); obs(to_string(strtoul("ff", nullptr, 16)) + to_string(strtoll("-5", nullptr, 10)) + to_string(atoi("9"))); break; }
  case 38: { vector<string> w{"b", "a"}; sort(w.begin(), w.end()); auto it = unique(v.begin(), v.end()); rotate(v.begin(), v.begin() + 1, v.end()); reverse(v.begin(), v.end()); auto mm = minmax_element(v.begin(), v.end()); obs(w[0] + to_string(*mm.first) + to_string(it - v.begin()) + to_string(binary_search(v.begin(), v.end(), 9)) + to_string(all_of(v.begin(), v.end(), [](int x) { return x > 0; }))); break; }
  case 39: { stringstream ss; ss << "1 2 3"; vector<int> q((istream_iterator<int>(ss)), {}); obs(to_string(q.size())); copy(q.begin(), q.end(), ostream_iterator<int>(cout, " ")); break; }
  case 40: { auto t = chrono::system_clock::now(); time_t tt = chrono::system_clock::to_time_t(t); obs(to_string(tt > 0)); unique_ptr<FILE, int (*)(FILE*)> f(fopen("g.txt", "wb"), fclose); obs(to_string(f != nullptr)); char* d = strdup("dup"); obs(d); free(d); void* m = calloc(4, 4); m = realloc(m, 64); free(m); break; }
  case 41: { barrier b(1); b.arrive_and_wait(); stop_source ss; ss.request_stop(); atomic_flag fl; fl.test_and_set(); obs(to_string(fl.test())); atomic<int> a{1}; a.wait(0); a.notify_all(); obs("ok"); break; }
  case 42: { timed_mutex tm; obs(to_string(tm.try_lock_for(chrono::milliseconds(1)))); tm.unlock(); recursive_mutex rm; rm.lock(); rm.lock(); rm.unlock(); rm.unlock(); mutex m; condition_variable cv; unique_lock l(m); obs(to_string(cv.wait_for(l, chrono::milliseconds(1)) == cv_status::timeout)); condition_variable_any ca; ca.notify_all(); break; }
  case 43: { for (auto& e: fs::directory_iterator(".")) (void)e; fs::create_directory("dd"); obs(to_string(fs::is_directory("dd"))); fs::remove_all("dd"); auto tp = fs::temp_directory_path(); obs(to_string(!tp.empty())); obs(fs::absolute("x").filename().string()); obs(to_string(fs::space(".").available > 0)); break; }
  case 44: { exception_ptr p; try { throw runtime_error("in"); } catch (...) { p = current_exception(); } try { rethrow_exception(p); } catch (const exception& e) { obs(e.what()); } try { try { throw runtime_error("a"); } catch (...) { throw_with_nested(logic_error("b")); } } catch (const exception& e) { obs(e.what()); } break; }
  case 45: { wstring w = L"ab"; obs(to_string(w.size())); u16string u = u"xy"; obs(to_string(u.size())); u32string z = U"q"; obs(to_string(z[0])); forward_list<int> f{1, 2}; obs(to_string(f.front())); tuple<int, string> t{1, "b"}; obs(get<1>(t)); auto lc = source_location::current(); obs(to_string(lc.line() > 0)); break; }
  case 46: { string_view sv = "hello"; obs(string(sv.substr(1, 3)) + to_string(sv.starts_with("he")) + to_string(sv.find("l"))); cin.tie(nullptr); ios_base::sync_with_stdio(false); cout << fixed << setprecision(2) << 3.14159 << "\n"; cout.write("abc", 3); cout.put('x').flush(); obs("ok"); break; }
  case 47: { unordered_set<int> s{1, 2, 3}; s.insert(9); multimap<int, int> m{{1, 2}, {1, 3}}; auto [a, b] = m.equal_range(1); obs(to_string(distance(a, b)) + to_string(s.contains(9))); pmr_skip:; break; }
  case 48: { char b[16]; memset(b, 'x', 16); memmove(b, b + 1, 15); obs(to_string(memcmp(b, "xx", 2)) + to_string(strncmp("ab", "ac", 1)) + to_string(strlen("abc"))); obs(to_string(memchr("abc", 'c', 3) != nullptr)); obs(string(strchr("a:b", ':')) + strstr("hello", "ll") + strrchr("a/b/c", '/')); int x = 0; sscanf("17 5", "%d", &x); obs(to_string(x)); break; }
  case 49: { obs(to_string(gcd(12, 18)) + to_string(clamp(5, 1, 3)) + to_string(std::midpoint(1, 5)) + to_string(exchange(v[0], 1))); auto h = hash<string>{}("abc"); obs(to_string(h)); obs(to_string(hash<string_view>{}("abc") == h)); break; }
  }
  return c == 'a' ? 0 : 1;
}
HSX_MAIN {
  char a[] = "app"; char* av[] = {a, nullptr};
  int  rc = hsx_run(app, 1, av);
  hsx_observe("rc", &rc, sizeof rc);
  observeFile("out", "<stdout>");
  observeFile("err", "<stderr>");
  return 0;
}

// The types under test, in groups that are compiled separately.
#pragma once
#include "types.hpp"

namespace ty {

using str = std::string;
template <class ...T> using tup = std::tuple<T...>;
struct E1; struct K1;

// G1: fundamental types, G2: strings and sequences, G3: associative containers, G4: wrappers
#define TYPES_G1(X) \
    X(bool) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) \
    X(float) X(double) X(char) X(wchar_t) X(char8_t) X(char16_t) X(char32_t) X(std::nullptr_t) \
    X(std::complex<float>) X(std::complex<double>) X(std::bitset<5>) X(std::bitset<8>) X(std::bitset<33>) X(std::bitset<0>) \
    X(std::chrono::nanoseconds) X(std::chrono::seconds) X(t_dur_d) X(t_tp) X(std::pair<int, double>) X(std::pair<bool, str>) X(t_tup3) X(std::tuple<>) X(std::tuple<char>)
#define TYPES_G1J(X) X(long double) X(t_tup_ld)
using t_dur_d = std::chrono::duration<double, std::milli>;
using t_tp = std::chrono::time_point<std::chrono::system_clock, std::chrono::microseconds>;
using t_tup3 = std::tuple<int, std::string, double>;
using t_tup_ld = std::tuple<long double, unsigned char>;

#define TYPES_G2(X) \
    X(str) X(std::u8string) X(std::u16string) X(std::u32string) X(std::wstring) X(char[8]) X(char16_t[7]) X(char32_t[5]) X(wchar_t[6]) X(char8_t[9]) \
    X(char*) X(char16_t*) X(char32_t*) X(wchar_t*) \
    X(std::vector<int>) X(std::vector<bool>) X(std::vector<str>) X(std::vector<unsigned char>) X(std::vector<signed char>) X(std::vector<char>) X(std::vector<double>) X(std::vector<std::vector<short>>) \
    X(std::deque<unsigned>) X(std::list<float>) X(std::list<str>) X(std::forward_list<long>) X(std::forward_list<str>) X(t_arr3) X(t_arrs) X(int[4]) X(str[3]) X(t_i22) X(unsigned char[6]) X(t_arru) \
    X(std::queue<int>) X(std::priority_queue<int>) X(std::valarray<int>) X(std::valarray<double>)
using t_arr3 = std::array<int, 3>; using t_arrs = std::array<std::string, 2>; using t_i22 = int[2][3]; using t_arru = std::array<unsigned char, 5>;

#define TYPES_G2S(X) X(std::stack<int>) X(std::stack<str>) X(t_stk)
using t_stk = std::stack<double, std::vector<double>>;

#define TYPES_G3(X) \
    X(std::set<int>) X(std::set<str>) X(std::multiset<int>) X(std::multiset<str>) X(std::unordered_set<str>) X(std::unordered_multiset<int>) X(std::set<double>) X(std::set<std::vector<int>>) \
    X(t_m1) X(t_m2) X(t_m3) X(t_m4) X(t_m5) X(t_m6) X(t_mm1) X(t_mm2) X(t_um1) X(t_um2) X(t_umm1) X(t_m16) X(t_mb) X(t_mc)
using t_m1 = std::map<std::string, int>; using t_m2 = std::map<int, std::string>; using t_m3 = std::map<std::string, std::vector<int>>; using t_m4 = std::map<std::string, std::map<std::string, bool>>;
using t_m5 = std::map<double, int>; using t_m6 = std::map<unsigned long long, std::list<double>>; using t_mm1 = std::multimap<std::string, int>; using t_mm2 = std::multimap<int, short>;
using t_um1 = std::unordered_map<std::string, double>; using t_um2 = std::unordered_map<int, std::string>; using t_umm1 = std::unordered_multimap<std::string, int>;
using t_m16 = std::map<std::u16string, std::u32string>; using t_mb = std::map<bool, int>; using t_mc = std::map<char, int>;
// keys that are values on their own: no texts for them
#define TYPES_G3K(X) X(t_mk1) X(t_mk2) X(t_mk3) X(t_mk4)
using t_mk1 = std::map<std::pair<int, int>, int>; using t_mk2 = std::map<std::vector<short>, std::string>; using t_mk3 = std::map<std::set<int>, bool>; using t_mk4 = std::map<std::tuple<int, bool, long>, double>;

#define TYPES_G4(X) \
    X(std::optional<int>) X(std::optional<str>) X(std::unique_ptr<int>) X(t_upv) X(std::shared_ptr<str>) X(std::shared_ptr<double>) X(int*) X(t_vip) X(t_mp) X(str*) \
    X(t_v1) X(t_v2) X(t_v3) X(t_v4) X(t_vv) X(t_nest1) X(t_nest2) X(t_nest3) X(t_nest4) X(t_mono)
using t_upv = std::unique_ptr<std::vector<int>>; using t_vip = std::vector<double*>; using t_mp = std::map<std::string, std::vector<int>*>;
using t_v1 = std::variant<int, std::string>; using t_v2 = std::variant<bool, double, std::string, std::vector<int>, std::map<std::string, int>, std::nullptr_t>;
using t_v3 = std::variant<int, double>; using t_v4 = std::variant<std::monostate, std::vector<std::string>, std::pair<int, int>, char>; using t_vv = std::vector<t_v1>;
using t_nest1 = std::vector<std::map<std::string, std::optional<double>>>; using t_nest2 = std::map<std::string, std::tuple<int, std::vector<std::pair<bool, std::string>>, std::optional<char>>>;
using t_nest3 = std::list<std::vector<std::set<int>>>; using t_nest4 = std::tuple<std::unique_ptr<std::string>, std::array<std::vector<bool>, 2>, std::complex<double>>;
using t_mono = std::variant<std::monostate, int>;

} // ty

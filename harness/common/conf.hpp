// V01: the types that every configuration has, by number. C++11.
#pragma once
#include <array>
#include <bitset>
#include <chrono>
#include <complex>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <valarray>
#include <vector>
#if __cplusplus >= 201703L
#   include <optional>
#   include <variant>
#endif

namespace cf {

enum class E { one, two = 2, minus = -3, big = 1000000 };
struct S { int a = 0; bool b = false; };
struct P { int a = 0; double b = 0; std::string c; std::vector<S> d; E e = E::one; std::map<std::string, float> f; };

using t0 = std::vector<double>; using t1 = std::vector<std::string>; using t2 = std::list<int>; using t3 = std::map<std::string, int>; using t4 = std::map<int, double>; using t5 = std::map<double, std::string>; using t6 = std::map<bool, unsigned>;
using t7 = std::tuple<int, std::string, double>; using t8 = std::pair<short, std::string>; using t9 = std::bitset<70>; using t10 = std::complex<double>; using t11 = std::array<int, 3>; using t12 = std::vector<std::u16string>; using t13 = std::vector<unsigned char>;
using t14 = std::vector<bool>; using t15 = std::valarray<float>; using t16 = std::chrono::milliseconds; using t17 = std::unique_ptr<int>; using t18 = std::set<std::string>; using t19 = std::map<std::string, std::map<std::string, std::vector<long>>>;
using t20 = std::vector<char>; using t21 = std::multimap<std::string, bool>; using t22 = std::deque<float>; using t23 = std::map<std::u16string, std::list<std::vector<int>>>; using t24 = std::complex<float>; using t25 = std::multiset<int>; using t26 = std::forward_list<short>; using t27 = std::vector<E>; using t28 = std::map<E, P>;

#define CONF_TYPES_A(X) \
    X(0, bool) X(1, char) X(2, signed char) X(3, unsigned char) X(4, short) X(5, unsigned short) X(6, int) X(7, unsigned) X(8, long) X(9, unsigned long) X(10, long long) X(11, unsigned long long) X(12, float) X(13, double) X(14, std::string) X(15, std::u16string) X(16, std::u32string) X(17, std::wstring) X(18, cf::t0) X(19, cf::t1) X(20, cf::t2) X(21, cf::t3) X(22, cf::t4) X(23, cf::t5) X(24, cf::t6) X(25, cf::t7) X(26, cf::t8)
#define CONF_TYPES_B(X) \
    X(27, cf::t9) X(28, cf::t10) X(29, cf::t11) X(30, cf::t12) X(31, cf::t13) X(32, cf::t14) X(33, cf::t15) X(34, cf::t16) X(35, cf::t17) X(36, cf::t18) X(37, cf::t19) X(38, cf::t20) X(39, cf::t21) X(40, cf::t22) X(41, cf::t23) X(42, cf::t24) X(43, cf::t25) X(44, cf::t26) X(45, cf::E) X(46, cf::S) X(47, cf::P) X(48, cf::t27) X(49, cf::t28)
#define CONF_TYPES(X) CONF_TYPES_A(X) CONF_TYPES_B(X)
// 50.. json::node, json::ordered_node, cbor::node, cbor::ordered_node; 54 tidy
#if __cplusplus >= 201703L
using u0 = std::optional<int>; using u1 = std::variant<int, std::string>; using u2 = std::variant<bool, double, std::string, std::vector<int>, std::map<std::string, int>>; using u3 = std::vector<std::optional<std::string>>; using u4 = std::variant<int, double>;
#define CONF_TYPES17(X) X(60, cf::u0) X(61, cf::u1) X(62, cf::u2) X(63, cf::u3) X(64, cf::u4)
#endif

// operations: 0 JSON, 1 CXCF, 2 CBOR, 3 JSON permissive, 4 JSON strict numbers, 5 JSON without escapes and validation, of all forms of input; 6 written from what is read as CBOR
struct Case { unsigned char type, op, form; std::string in; };

} // cf

// Driver of the Consts component: muu::constants.
#include "muu/core.h"
#include "muu/half.h"
#include "muu/math.h"
#include "seq.h"
using namespace muu;
using seq::op;
using seq::out;
using seq::rng;
#ifndef EMULATED
	#define EMULATED 0
#endif
using big = __float128;
#define NAMED(X) \
	X(one_over_two) X(one_over_three) X(one_over_four) X(one_over_five) X(one_over_six) X(one_over_seven) X(one_over_eight) X(sqrt_two) \
	X(one_over_sqrt_two) X(two_over_three) X(two_over_five) X(two_over_seven) X(sqrt_three) X(one_over_sqrt_three) X(three_over_two) \
	X(three_over_four) X(three_over_five) X(three_over_seven) X(three_over_eight) X(sqrt_four) X(four_over_three) X(four_over_five) \
	X(four_over_seven) X(pi) X(one_over_pi) X(sqrt_pi) X(one_over_sqrt_pi) X(pi_over_two) X(pi_over_three) X(pi_over_four) X(pi_over_five) \
	X(pi_over_six) X(pi_over_seven) X(pi_over_eight) X(two_over_pi) X(three_over_pi) X(four_over_pi) X(five_over_pi) X(six_over_pi) \
	X(seven_over_pi) X(eight_over_pi) X(two_pi) X(one_over_two_pi) X(sqrt_two_pi) X(one_over_sqrt_two_pi) X(two_pi_over_three) \
	X(two_pi_over_five) X(two_pi_over_seven) X(three_over_two_pi) X(five_over_two_pi) X(seven_over_two_pi) X(three_pi) X(one_over_three_pi) \
	X(sqrt_three_pi) X(one_over_sqrt_three_pi) X(three_pi_over_two) X(three_pi_over_four) X(three_pi_over_five) X(three_pi_over_seven) \
	X(three_pi_over_eight) X(two_over_three_pi) X(four_over_three_pi) X(five_over_three_pi) X(seven_over_three_pi) X(eight_over_three_pi) X(e) \
	X(one_over_e) X(sqrt_e) X(one_over_sqrt_e) X(e_over_two) X(e_over_three) X(e_over_four) X(e_over_five) X(e_over_six) X(e_over_seven) \
	X(e_over_eight) X(two_over_e) X(three_over_e) X(four_over_e) X(five_over_e) X(six_over_e) X(seven_over_e) X(eight_over_e) X(phi) \
	X(one_over_phi) X(sqrt_phi) X(one_over_sqrt_phi) X(phi_over_two) X(phi_over_three) X(phi_over_four) X(phi_over_five) X(phi_over_six) \
	X(phi_over_seven) X(phi_over_eight) X(two_over_phi) X(three_over_phi) X(four_over_phi) X(five_over_phi) X(six_over_phi) X(seven_over_phi) \
	X(eight_over_phi) X(one_over_ten) X(one_over_one_hundred) X(one_over_one_thousand) X(degrees_to_radians) X(radians_to_degrees)
#define ASCII(X) \
	X(backspace) X(tab) X(new_line) X(vertical_tab) X(form_feed) X(carriage_return) X(escape) X(space) X(exclamation_mark) X(quote) \
	X(number_sign) X(dollar_sign) X(percent) X(ampersand) X(apostrophe) X(left_parenthesis) X(right_parenthesis) X(asterisk) X(plus) X(comma) \
	X(hyphen) X(period) X(forward_slash) X(digit_0) X(digit_1) X(digit_2) X(digit_3) X(digit_4) X(digit_5) X(digit_6) X(digit_7) X(digit_8) \
	X(digit_9) X(colon) X(semi_colon) X(less_than) X(equal) X(greater_than) X(question_mark) X(at) X(letter_A) X(letter_B) X(letter_C) \
	X(letter_D) X(letter_E) X(letter_F) X(letter_G) X(letter_H) X(letter_I) X(letter_J) X(letter_K) X(letter_L) X(letter_M) X(letter_N) \
	X(letter_O) X(letter_P) X(letter_Q) X(letter_R) X(letter_S) X(letter_T) X(letter_U) X(letter_V) X(letter_W) X(letter_X) X(letter_Y) \
	X(letter_Z) X(left_square_bracket) X(back_slash) X(right_square_bracket) X(hat) X(underscore) X(backtick) X(letter_a) X(letter_b) \
	X(letter_c) X(letter_d) X(letter_e) X(letter_f) X(letter_g) X(letter_h) X(letter_i) X(letter_j) X(letter_k) X(letter_l) X(letter_m) \
	X(letter_n) X(letter_o) X(letter_p) X(letter_q) X(letter_r) X(letter_s) X(letter_t) X(letter_u) X(letter_v) X(letter_w) X(letter_x) \
	X(letter_y) X(letter_z) X(left_brace) X(bar) X(right_brace) X(tilde) X(del)
void seq::reset() {}
template <typename T>
static void limbs(out& w, T x) // two limbs of the integer part, fourteen of the fraction, base 4096
{
	big v = (big)x;
	if (!(v >= 0 && v < big(16777216)))
	{
		w.push_back(-1);
		return;
	}
	const long n = (long)v;
	w.push_back(n / 4096);
	w.push_back(n % 4096);
	v -= n;
	for (int i = 0; i < 14; i++)
	{
		v *= 4096;
		const long d = (long)v;
		w.push_back(d);
		v -= d;
	}
}
template <typename T>
static void named(out& w, long i)
{
	using C = constants<T>;
#define LIST(n) C::n,
	static constexpr T all[]{ NAMED(LIST) };
#undef LIST
	limbs(w, all[i]);
}
template <typename T>
static bool minus(T v)
{
	return __builtin_signbit((float)v);
}
template <typename T>
static void small(out& w)
{
	using C		= constants<T>;
	const T v[] = { C::zero, C::one, C::two, C::three, C::four, C::five, C::six, C::seven, C::eight, C::nine, C::ten, C::one_hundred };
	for (T x : v)
		w.push_back((long)x);
}
template <typename T>
static void limits(out& w)
{
	using C = constants<T>;
	const big nan = (big)C::nan, snan = (big)C::signaling_nan;
	w.insert(w.end(), { nan != nan, snan != snan, C::infinity > C::highest, C::negative_infinity < C::lowest, C::negative_zero == C::zero && minus(C::negative_zero),
						!minus(C::zero) && !minus(C::infinity) && minus(C::negative_infinity), (big)C::lowest == -(big)C::highest, C::significand_digits, C::decimal_digits });
	big f  = (big)C::highest;
	long e = 0;
	while (f >= 1 && e < 20000)
	{
		f /= 2;
		e++;
	}
	long j = 0;
	for (big g = 1 - f; g < 1 && j < 200; g *= 2)
		j++;
	big back = 1;
	for (long i = 0; i < j; i++)
		back /= 2;
	w.push_back(e);
	w.push_back(1 - back == f ? j : -1); // highest = (1 - 2^-j) * 2^e
	small<T>(w);
	limbs(w, C::default_epsilon);
	limbs(w, default_epsilon<T>);
}
template <typename T>
static void wide(out& w, T v) // magnitude, eight limbs of base 65536
{
	uint128_t u = v < T{} ? uint128_t{} - (uint128_t)v : (uint128_t)v;
	w.push_back(v < T{});
	for (int i = 0; i < 8; i++)
	{
		w.push_back((long)(u & 0xFFFFu));
		u >>= 16;
	}
}
template <typename T>
static void integers(out& w)
{
	using C = constants<T>;
	w.push_back((long)sizeof(T));
	w.push_back(T(-1) < T{});
	wide(w, C::lowest);
	wide(w, C::highest);
	small<T>(w);
}
template <typename T>
static void characters(out& w)
{
	using C = constants<T>;
	integers<T>(w);
#define LIST(n) w.push_back((long)C::n);
	ASCII(LIST)
#undef LIST
}
void seq::apply(const op& o, out& w)
{
	if (o.name == "named")
		switch (o[0])
		{
			case 1: named<float>(w, o[1]); break;
			case 2: named<double>(w, o[1]); break;
			case 3: named<long double>(w, o[1]); break;
			case 4: named<float128_t>(w, o[1]); break;
#if !EMULATED // else there is no _Float16
			case 5: named<_Float16>(w, o[1]); break;
#endif
			case 6: named<half>(w, o[1]); break;
		}
	else if (o.name == "lim")
		switch (o[0])
		{
			case 1: limits<float>(w); break;
			case 2: limits<double>(w); break;
			case 3: limits<long double>(w); break;
			case 4: limits<float128_t>(w); break;
#if !EMULATED
			case 5: limits<_Float16>(w); break;
#endif
			case 6: limits<half>(w); break;
		}
	else if (o.name == "int")
		switch (o[0])
		{
			case 1: integers<signed char>(w); break;
			case 2: integers<unsigned char>(w); break;
			case 3: integers<short>(w); break;
			case 4: integers<unsigned short>(w); break;
			case 5: integers<int>(w); break;
			case 6: integers<unsigned>(w); break;
			case 7: integers<long>(w); break;
			case 8: integers<unsigned long>(w); break;
			case 9: integers<long long>(w); break;
			case 10: integers<unsigned long long>(w); break;
			case 11: integers<int128_t>(w); break;
			case 12: integers<uint128_t>(w); break;
		}
	else if (o.name == "chr")
		switch (o[0])
		{
			case 1: characters<char>(w); break;
			case 2: characters<wchar_t>(w); break;
			case 3: characters<char8_t>(w); break;
			case 4: characters<char16_t>(w); break;
			case 5: characters<char32_t>(w); break;
		}
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> v;
	for (long n = 4; n--;)
		v.push_back(op{ "named", { r.range(1, 6), r(106) } });
	return v;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()

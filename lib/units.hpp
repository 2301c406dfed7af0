#pragma once
#include <cstddef>
#include <string_view>
struct urow {
	const char32_t * text; size_t n; unsigned flags;
	bool (*f8)(std::string_view); bool (*f16)(std::u16string_view); bool (*f32)(std::u32string_view); bool (*fw)(std::wstring_view); bool (*fu8)(std::u8string_view);
};
extern const urow utable[]; extern const size_t utable_n;
#define UROW(name, F) \
	static bool name##_8(std::string_view s) { return bool(F(s)); } static bool name##_16(std::u16string_view s) { return bool(F(s)); } \
	static bool name##_32(std::u32string_view s) { return bool(F(s)); } static bool name##_w(std::wstring_view s) { return bool(F(s)); } \
	static bool name##_u8(std::u8string_view s) { return bool(F(s)); }

#define BCL_LEGACY
#include "vf.h"
#include <cstring>
#include <cwchar>
#include <string>
#include <utility>
#include <memory>
#include <bcl/legacy/declaration.h>
#include <bcl/legacy/exception.h>
#include <bcl/legacy/text.h>
#ifndef VF_NATIVE
template class std::basic_string<wchar_t>;
#endif
// ---- decimal texts
template <class T> static void decimal(const T &s, long long v) {
  unsigned i = 0; uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v; bool neg = v < 0; vf_check(s.size() >= 1 && s.size() <= 11, "length of a number"); vf_check((s[0] == '-') == neg, "sign of a number"); if (s[0] == '-') { i = 1; vf_reach("negative"); }
  vf_check(i < s.size(), "a number has digits"); vf_check((s[i] != '0') | (s.size() == 1), "a number has no leading zeros"); uint64_t x = 0; for (; i < s.size(); ++i) { vf_check((s[i] >= '0') & (s[i] <= '9'), "digits of a number"); x = x * 10 + (unsigned)(s[i] - '0'); } vf_check(x == m, "the text is the decimal form of the number"); if (s.size() > 9) vf_reach("long");
}
VF_ENTRY(number_text) {
  static const int base[] = {0, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 2147483520, INT32_MIN + 128, -1000000000, -100000000, -10000000, -1000000, -100000, -10000, -1000, -100};
  int v = base[vf_choose(19, "base")] + (int)vf_in<int8_t>(-(int)vf_param("near", 127) - 1, (int)vf_param("near", 127), "delta"); unsigned form = vf_param("form", 3);
  switch (form == 3 ? vf_choose(3, "form") : form) { case 0: decimal(Base::ToTextAnsi(v), v); break; case 1: decimal(Base::ToTextUnicode(v), v); break; case 2: decimal(Base::ToText(v), v); break; }
}
// ---- bounded copies
template <class C, class F> static void copies(F f) {
  unsigned n = vf_choose(vf_param("n", 4) + 1, "length"), room = vf_choose(vf_param("n", 4) + 3, "room"); std::unique_ptr<C[]> from(new C[n + 1]), to(new C[room + 1]); for (unsigned i = 0; i < n; ++i) { from[i] = (C)vf_any<char>("c"); vf_assume_(from[i] != 0); } from[n] = 0; for (unsigned i = 0; i <= room; ++i) to[i] = 'x';
  std::unique_ptr<C[]> exact(new C[room ? room : 1]); bool thrown = false; try { f(exact.get(), room, from.get()); } catch (const Base::IException &e) { thrown = true; vf_check(e.RelativeCode() == 6 && e.Brief() == "can't copy string" && e.Type() == "error" && e.Message() == e.Brief(), "the failure is described"); vf_check(e.ToText<Base::BCL>() == "BCL: error 6: can't copy string", "text of the failure"); }
  vf_check(thrown == (n >= room), "a copy fails iff there is no room for the text and its end"); if (thrown) { vf_reach("refused"); return; } for (unsigned i = 0; i <= n; ++i) vf_check(exact[i] == from[i], "the text is copied with its end"); vf_reach("copied");
}
VF_ENTRY(bounded_copy) { switch (vf_choose(3, "form")) { case 0: copies<char>([](char *t, size_t n, const char *f) { Base::CopyAnsi(t, n, f); }); break; case 1: copies<wchar_t>([](wchar_t *t, size_t n, const wchar_t *f) { Base::CopyUnicode(t, n, f); }); break; case 2: copies<char>([](char *t, size_t n, const char *f) { Base::CopyString(t, n, f); }); break; } }
template <class C, class F> static void copyLong(F f) { // texts longer than any short buffer
  static const unsigned L[] = {15, 16, 63, 127, 128, 255, 256, 1023}; unsigned n = L[vf_choose(8, "length")], room = n + vf_choose(4, "room") - 1; std::unique_ptr<C[]> from(new C[n + 1]), to(new C[room]); C x = (C)vf_any<char>("c"); vf_assume(x != 0); for (unsigned i = 0; i < n; ++i) from[i] = x; from[n / 2] = 'y'; from[n] = 0;
  bool thrown = false; try { f(to.get(), room, from.get()); } catch (const Base::IException &) { thrown = true; } vf_check(thrown == (n >= room), "a copy fails iff there is no room for the text and its end"); if (thrown) { vf_reach("refused"); return; } for (unsigned i = 0; i <= n; ++i) vf_check(to[i] == from[i], "the text is copied with its end"); vf_reach("copied");
}
VF_ENTRY(copy_long) { switch (vf_choose(3, "form")) { case 0: copyLong<char>([](char *t, size_t n, const char *f) { Base::CopyAnsi(t, n, f); }); break; case 1: copyLong<wchar_t>([](wchar_t *t, size_t n, const wchar_t *f) { Base::CopyUnicode(t, n, f); }); break; case 2: copyLong<char>([](char *t, size_t n, const char *f) { Base::CopyString(t, n, f); }); break; } }
// ---- codes of errors
using Utility::Null; using Base::ErrorList::Error; using Base::ErrorList::Fatal; using Base::ErrorList::Warning;
ERROR_DECL(Leaf1, "leaf 1", Null, Null) ERROR_DECL(Leaf2, "leaf 2", Null, Warning) ERROR_DECL(Leaf3, "leaf 3", Null, Fatal)
ERROR_DECL(Inner, "inner", CELL_COLL_2(Leaf1, Leaf2), Error) ERROR_DECL(Top, "top", CELL_COLL_2(Inner, Leaf3), Null) ERROR_DECL(Other, "other", Null, Error)
#define APP(name_, acr_, errs_, apps_) struct name_ { DESCRIPTION_FIELD(Acronym, "Acronym", acr_) typedef CELL_COLL_1(Acronym) Description; typedef errs_ Errors; typedef Base::ErrorList::Priority ErrorPriority; typedef apps_ Applications; typedef Null ValueType; };
#define COMMA ,
APP(Small, "S", CELL_COLL_2(Top, Other), Null)
struct Second { DESCRIPTION_FIELD(Acronym, "Acronym", "N") typedef CELL_COLL_1(Acronym) Description; typedef CELL_COLL_1(Other) Errors; typedef Base::ErrorList::Priority ErrorPriority; typedef Null Applications; typedef Null ValueType; };
struct Big { DESCRIPTION_FIELD(Acronym, "Acronym", "B") typedef CELL_COLL_1(Acronym) Description; typedef CELL_COLL_3(Leaf3, Inner, Other) Errors; typedef Base::ErrorList::Priority ErrorPriority; typedef CELL_COLL_2(Small, Second) Applications; typedef Null ValueType; };
typedef Base::Exception<Base::BCL> Failure;
using Base::CodeOfError;
VF_ENTRY(error_codes) {
  int c[] = {CodeOfError<CELL_COLL_1(Top), Small>(), CodeOfError<CELL_COLL_2(Top, Inner), Small>(), CodeOfError<CELL_COLL_3(Top, Inner, Leaf1), Small>(), CodeOfError<CELL_COLL_3(Top, Inner, Leaf2), Small>(), CodeOfError<CELL_COLL_2(Top, Leaf3), Small>(), CodeOfError<CELL_COLL_1(Other), Small>()};
  for (int i = 0; i < 6; ++i) { vf_check(c[i] >= 1 && c[i] <= 6, "codes are in range"); for (int j = 0; j < i; ++j) vf_check(c[i] != c[j], "codes of different errors differ"); }
  vf_check((Base::TypeOfError<CELL_COLL_3(Top, Inner, Leaf1), Small>() == "error"), "type of an error"); vf_check((Base::TypeOfError<CELL_COLL_2(Top, Leaf3), Small>() == "fatal error"), "the most severe type");
  vf_check((Base::BriefOfError<CELL_COLL_3(Top, Inner, Leaf2)>() == "top: inner: leaf 2"), "description names the whole path");
  vf_reach("codes");
}
template <class A, class Id> static int thrown(bool own) {
  try { throw typename Base::Exception<A>::template Error<Id>(); }
  catch (const Base::IException &e) { vf_check((e.RelativeCode() == Base::CodeOfError<Id, A>()) & (e.Brief() == Base::BriefOfError<Id>()) & (e.Type() == Base::TypeOfError<Id, A>()), "an exception describes its error"); if (own) vf_check(e.template Code<A>() == e.RelativeCode(), "code in the own application"); return e.template Code<Big>(); }
  return 0;
}
VF_ENTRY(exception_codes) {
  int c[] = {thrown<Big, CELL_COLL_1(Leaf3)>(true), thrown<Big, CELL_COLL_1(Inner)>(true), thrown<Big, CELL_COLL_2(Inner, Leaf1)>(true), thrown<Big, CELL_COLL_2(Inner, Leaf2)>(true), thrown<Big, CELL_COLL_1(Other)>(true),
    thrown<Small, CELL_COLL_1(Top)>(true), thrown<Small, CELL_COLL_2(Top, Inner)>(true), thrown<Small, CELL_COLL_3(Top, Inner, Leaf1)>(true), thrown<Small, CELL_COLL_3(Top, Inner, Leaf2)>(true), thrown<Small, CELL_COLL_2(Top, Leaf3)>(true), thrown<Small, CELL_COLL_1(Other)>(true), thrown<Second, CELL_COLL_1(Other)>(true)};
  for (int i = 0; i < 12; ++i) { vf_check(c[i] >= 1 && c[i] <= 12, "codes in an application are in range"); for (int j = 0; j < i; ++j) vf_check(c[i] != c[j], "codes of different errors in an application differ"); }
  vf_reach("codes");
}
// an application which uses an application which uses other ones
struct Third { DESCRIPTION_FIELD(Acronym, "Acronym", "H") typedef CELL_COLL_1(Acronym) Description; typedef CELL_COLL_2(Inner, Other) Errors; typedef Base::ErrorList::Priority ErrorPriority; typedef Null Applications; typedef Null ValueType; };
struct Huge { DESCRIPTION_FIELD(Acronym, "Acronym", "U") typedef CELL_COLL_1(Acronym) Description; typedef CELL_COLL_2(Top, Other) Errors; typedef Base::ErrorList::Priority ErrorPriority; typedef CELL_COLL_2(Big, Third) Applications; typedef Null ValueType; };
template <class A, class Id> static int code() { try { throw typename Base::Exception<A>::template Error<Id>(); } catch (const Base::IException &e) { return e.template Code<Huge>(); } return 0; }
VF_ENTRY(nested_codes) {
  int c[] = {code<Huge, CELL_COLL_1(Top)>(), code<Huge, CELL_COLL_2(Top, Inner)>(), code<Huge, CELL_COLL_3(Top, Inner, Leaf1)>(), code<Huge, CELL_COLL_3(Top, Inner, Leaf2)>(), code<Huge, CELL_COLL_2(Top, Leaf3)>(), code<Huge, CELL_COLL_1(Other)>(),
    code<Big, CELL_COLL_1(Leaf3)>(), code<Big, CELL_COLL_1(Inner)>(), code<Big, CELL_COLL_2(Inner, Leaf1)>(), code<Big, CELL_COLL_2(Inner, Leaf2)>(), code<Big, CELL_COLL_1(Other)>(),
    code<Small, CELL_COLL_1(Top)>(), code<Small, CELL_COLL_2(Top, Inner)>(), code<Small, CELL_COLL_3(Top, Inner, Leaf1)>(), code<Small, CELL_COLL_3(Top, Inner, Leaf2)>(), code<Small, CELL_COLL_2(Top, Leaf3)>(), code<Small, CELL_COLL_1(Other)>(), code<Second, CELL_COLL_1(Other)>(),
    code<Third, CELL_COLL_1(Inner)>(), code<Third, CELL_COLL_2(Inner, Leaf1)>(), code<Third, CELL_COLL_2(Inner, Leaf2)>(), code<Third, CELL_COLL_1(Other)>()};
  for (int i = 0; i < 22; ++i) { vf_check(c[i] >= 1 && c[i] <= 22, "codes in an application are in range"); for (int j = 0; j < i; ++j) vf_check(c[i] != c[j], "codes of different errors in an application differ"); }
  vf_reach("nested");
}
// texts of errors
static std::string text(const char *app, const char *type, int code, const char *brief) { return std::string(app) + ": " + type + " " + std::to_string(code) + ": " + brief; }
template <class E> static void castText(const char *parent) {
  char f = (char)vf_any<uint8_t>("from"), t = (char)vf_any<uint8_t>("to"); std::string from(1, f), to(2, t);
  try { throw E(from, to); } catch (const Base::IException &e) { vf_check(e.Message() == std::string(parent) + "type cast from type '" + from + "' to type '" + to + "' is not valid", "a failed type cast names both types"); const E *x = dynamic_cast<const E *>(&e); vf_check(x && x->FromType() == from && x->ToType() == to, "types of a failed type cast"); }
}
VF_ENTRY(error_texts) {
  vf_check((Base::ErrorToText<CELL_COLL_3(Top, Inner, Leaf2), Small>() == text("S", "error", CodeOfError<CELL_COLL_3(Top, Inner, Leaf2), Small>(), "top: inner: leaf 2")), "text of an error"); vf_check((Base::ErrorToText<CELL_COLL_1(Leaf3), Big>() == text("B", "fatal error", CodeOfError<CELL_COLL_1(Leaf3), Big>(), "leaf 3")), "text of an error");
  try { throw Base::Exception<Small>::Error<CELL_COLL_2(Top, Leaf3)>(); } catch (const Base::IException &e) { vf_check(e.ToText<Small>() == text("S", "fatal error", e.Code<Small>(), "top: leaf 3") && e.ToText<Big>() == text("B", "fatal error", e.Code<Big>(), "top: leaf 3") && e.ToText<Huge>() == text("U", "fatal error", e.Code<Huge>(), "top: leaf 3"), "text of an exception"); }
  try { throw Base::Exception<Second>::Error<CELL_COLL_1(Other)>(); } catch (const Base::IException &e) { vf_check(e.ToText<Big>() == text("B", "error", e.Code<Big>(), "other"), "text of an exception"); }
  castText<Base::Exception<Base::BCL>::TypeCastError<CELL_COLL_1(Base::ErrorList::TypeCast)>>(""); castText<Base::Exception<Small>::TypeCastError<CELL_COLL_2(Top, Inner)>>("top: "); vf_reach("texts");
}

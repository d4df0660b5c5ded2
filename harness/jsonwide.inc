// generated: objects of several widths; fields F1..Fn of types int, std::string, bool in turn
JSON_OBJECT_BEGIN(W1)
JSON_OBJECT_PAIR(W1, F1, int)
JSON_OBJECT_END(W1)
JSON_DEFAULT_TRAITS(::, W1)
template <class F> void cells(W1 &o, F f) { f(1, "F1", o[W1::F1]); }
JSON_OBJECT_BEGIN(W3)
JSON_OBJECT_PAIR_3(W3, F1, int, F2, std::string, F3, bool)
JSON_OBJECT_END(W3)
JSON_DEFAULT_TRAITS(::, W3)
template <class F> void cells(W3 &o, F f) { f(1, "F1", o[W3::F1]); f(2, "F2", o[W3::F2]); f(3, "F3", o[W3::F3]); }
JSON_OBJECT_BEGIN(W4)
JSON_OBJECT_PAIR_4(W4, F1, int, F2, std::string, F3, bool, F4, int)
JSON_OBJECT_END(W4)
JSON_DEFAULT_TRAITS(::, W4)
template <class F> void cells(W4 &o, F f) { f(1, "F1", o[W4::F1]); f(2, "F2", o[W4::F2]); f(3, "F3", o[W4::F3]); f(4, "F4", o[W4::F4]); }
JSON_OBJECT_BEGIN(W6)
JSON_OBJECT_PAIR_6(W6, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool)
JSON_OBJECT_END(W6)
JSON_DEFAULT_TRAITS(::, W6)
template <class F> void cells(W6 &o, F f) { f(1, "F1", o[W6::F1]); f(2, "F2", o[W6::F2]); f(3, "F3", o[W6::F3]); f(4, "F4", o[W6::F4]); f(5, "F5", o[W6::F5]); f(6, "F6", o[W6::F6]); }
JSON_OBJECT_BEGIN(W8)
JSON_OBJECT_PAIR_8(W8, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool, F7, int, F8, std::string)
JSON_OBJECT_END(W8)
JSON_DEFAULT_TRAITS(::, W8)
template <class F> void cells(W8 &o, F f) { f(1, "F1", o[W8::F1]); f(2, "F2", o[W8::F2]); f(3, "F3", o[W8::F3]); f(4, "F4", o[W8::F4]); f(5, "F5", o[W8::F5]); f(6, "F6", o[W8::F6]); f(7, "F7", o[W8::F7]); f(8, "F8", o[W8::F8]); }
JSON_OBJECT_BEGIN(W11)
JSON_OBJECT_PAIR_11(W11, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool, F7, int, F8, std::string, F9, bool, F10, int, F11, std::string)
JSON_OBJECT_END(W11)
JSON_DEFAULT_TRAITS(::, W11)
template <class F> void cells(W11 &o, F f) { f(1, "F1", o[W11::F1]); f(2, "F2", o[W11::F2]); f(3, "F3", o[W11::F3]); f(4, "F4", o[W11::F4]); f(5, "F5", o[W11::F5]); f(6, "F6", o[W11::F6]); f(7, "F7", o[W11::F7]); f(8, "F8", o[W11::F8]); f(9, "F9", o[W11::F9]); f(10, "F10", o[W11::F10]); f(11, "F11", o[W11::F11]); }
JSON_OBJECT_BEGIN(W17)
JSON_OBJECT_PAIR_17(W17, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool, F7, int, F8, std::string, F9, bool, F10, int, F11, std::string, F12, bool, F13, int, F14, std::string, F15, bool, F16, int, F17, std::string)
JSON_OBJECT_END(W17)
JSON_DEFAULT_TRAITS(::, W17)
template <class F> void cells(W17 &o, F f) { f(1, "F1", o[W17::F1]); f(2, "F2", o[W17::F2]); f(3, "F3", o[W17::F3]); f(4, "F4", o[W17::F4]); f(5, "F5", o[W17::F5]); f(6, "F6", o[W17::F6]); f(7, "F7", o[W17::F7]); f(8, "F8", o[W17::F8]); f(9, "F9", o[W17::F9]); f(10, "F10", o[W17::F10]); f(11, "F11", o[W17::F11]); f(12, "F12", o[W17::F12]); f(13, "F13", o[W17::F13]); f(14, "F14", o[W17::F14]); f(15, "F15", o[W17::F15]); f(16, "F16", o[W17::F16]); f(17, "F17", o[W17::F17]); }
JSON_OBJECT_BEGIN(W24)
JSON_OBJECT_PAIR_24(W24, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool, F7, int, F8, std::string, F9, bool, F10, int, F11, std::string, F12, bool, F13, int, F14, std::string, F15, bool, F16, int, F17, std::string, F18, bool, F19, int, F20, std::string, F21, bool, F22, int, F23, std::string, F24, bool)
JSON_OBJECT_END(W24)
JSON_DEFAULT_TRAITS(::, W24)
template <class F> void cells(W24 &o, F f) { f(1, "F1", o[W24::F1]); f(2, "F2", o[W24::F2]); f(3, "F3", o[W24::F3]); f(4, "F4", o[W24::F4]); f(5, "F5", o[W24::F5]); f(6, "F6", o[W24::F6]); f(7, "F7", o[W24::F7]); f(8, "F8", o[W24::F8]); f(9, "F9", o[W24::F9]); f(10, "F10", o[W24::F10]); f(11, "F11", o[W24::F11]); f(12, "F12", o[W24::F12]); f(13, "F13", o[W24::F13]); f(14, "F14", o[W24::F14]); f(15, "F15", o[W24::F15]); f(16, "F16", o[W24::F16]); f(17, "F17", o[W24::F17]); f(18, "F18", o[W24::F18]); f(19, "F19", o[W24::F19]); f(20, "F20", o[W24::F20]); f(21, "F21", o[W24::F21]); f(22, "F22", o[W24::F22]); f(23, "F23", o[W24::F23]); f(24, "F24", o[W24::F24]); }
JSON_OBJECT_BEGIN(W30)
JSON_OBJECT_PAIR_30(W30, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool, F7, int, F8, std::string, F9, bool, F10, int, F11, std::string, F12, bool, F13, int, F14, std::string, F15, bool, F16, int, F17, std::string, F18, bool, F19, int, F20, std::string, F21, bool, F22, int, F23, std::string, F24, bool, F25, int, F26, std::string, F27, bool, F28, int, F29, std::string, F30, bool)
JSON_OBJECT_END(W30)
JSON_DEFAULT_TRAITS(::, W30)
template <class F> void cells(W30 &o, F f) { f(1, "F1", o[W30::F1]); f(2, "F2", o[W30::F2]); f(3, "F3", o[W30::F3]); f(4, "F4", o[W30::F4]); f(5, "F5", o[W30::F5]); f(6, "F6", o[W30::F6]); f(7, "F7", o[W30::F7]); f(8, "F8", o[W30::F8]); f(9, "F9", o[W30::F9]); f(10, "F10", o[W30::F10]); f(11, "F11", o[W30::F11]); f(12, "F12", o[W30::F12]); f(13, "F13", o[W30::F13]); f(14, "F14", o[W30::F14]); f(15, "F15", o[W30::F15]); f(16, "F16", o[W30::F16]); f(17, "F17", o[W30::F17]); f(18, "F18", o[W30::F18]); f(19, "F19", o[W30::F19]); f(20, "F20", o[W30::F20]); f(21, "F21", o[W30::F21]); f(22, "F22", o[W30::F22]); f(23, "F23", o[W30::F23]); f(24, "F24", o[W30::F24]); f(25, "F25", o[W30::F25]); f(26, "F26", o[W30::F26]); f(27, "F27", o[W30::F27]); f(28, "F28", o[W30::F28]); f(29, "F29", o[W30::F29]); f(30, "F30", o[W30::F30]); }
JSON_OBJECT_BEGIN(R2)
JSON_OBJECT_ROOT_PAIR_2(R2, F1, int, F2, std::string)
  R2() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R2)
JSON_DEFAULT_TRAITS(::, R2)
template <class F> void cells(R2 &o, F f) { f(1, "F1", o[R2::F1]); f(2, "F2", o[R2::F2]); }
JSON_OBJECT_BEGIN(R5)
JSON_OBJECT_ROOT_PAIR_5(R5, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string)
  R5() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R5)
JSON_DEFAULT_TRAITS(::, R5)
template <class F> void cells(R5 &o, F f) { f(1, "F1", o[R5::F1]); f(2, "F2", o[R5::F2]); f(3, "F3", o[R5::F3]); f(4, "F4", o[R5::F4]); f(5, "F5", o[R5::F5]); }
JSON_OBJECT_BEGIN(R9)
JSON_OBJECT_ROOT_PAIR_9(R9, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool, F7, int, F8, std::string, F9, bool)
  R9() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R9)
JSON_DEFAULT_TRAITS(::, R9)
template <class F> void cells(R9 &o, F f) { f(1, "F1", o[R9::F1]); f(2, "F2", o[R9::F2]); f(3, "F3", o[R9::F3]); f(4, "F4", o[R9::F4]); f(5, "F5", o[R9::F5]); f(6, "F6", o[R9::F6]); f(7, "F7", o[R9::F7]); f(8, "F8", o[R9::F8]); f(9, "F9", o[R9::F9]); }
JSON_OBJECT_BEGIN(R15)
JSON_OBJECT_ROOT_PAIR_15(R15, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool, F7, int, F8, std::string, F9, bool, F10, int, F11, std::string, F12, bool, F13, int, F14, std::string, F15, bool)
  R15() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R15)
JSON_DEFAULT_TRAITS(::, R15)
template <class F> void cells(R15 &o, F f) { f(1, "F1", o[R15::F1]); f(2, "F2", o[R15::F2]); f(3, "F3", o[R15::F3]); f(4, "F4", o[R15::F4]); f(5, "F5", o[R15::F5]); f(6, "F6", o[R15::F6]); f(7, "F7", o[R15::F7]); f(8, "F8", o[R15::F8]); f(9, "F9", o[R15::F9]); f(10, "F10", o[R15::F10]); f(11, "F11", o[R15::F11]); f(12, "F12", o[R15::F12]); f(13, "F13", o[R15::F13]); f(14, "F14", o[R15::F14]); f(15, "F15", o[R15::F15]); }
JSON_OBJECT_BEGIN(R30)
JSON_OBJECT_ROOT_PAIR_30(R30, F1, int, F2, std::string, F3, bool, F4, int, F5, std::string, F6, bool, F7, int, F8, std::string, F9, bool, F10, int, F11, std::string, F12, bool, F13, int, F14, std::string, F15, bool, F16, int, F17, std::string, F18, bool, F19, int, F20, std::string, F21, bool, F22, int, F23, std::string, F24, bool, F25, int, F26, std::string, F27, bool, F28, int, F29, std::string, F30, bool)
  R30() : JSON_INIT_ROOT {}
JSON_OBJECT_END(R30)
JSON_DEFAULT_TRAITS(::, R30)
template <class F> void cells(R30 &o, F f) { f(1, "F1", o[R30::F1]); f(2, "F2", o[R30::F2]); f(3, "F3", o[R30::F3]); f(4, "F4", o[R30::F4]); f(5, "F5", o[R30::F5]); f(6, "F6", o[R30::F6]); f(7, "F7", o[R30::F7]); f(8, "F8", o[R30::F8]); f(9, "F9", o[R30::F9]); f(10, "F10", o[R30::F10]); f(11, "F11", o[R30::F11]); f(12, "F12", o[R30::F12]); f(13, "F13", o[R30::F13]); f(14, "F14", o[R30::F14]); f(15, "F15", o[R30::F15]); f(16, "F16", o[R30::F16]); f(17, "F17", o[R30::F17]); f(18, "F18", o[R30::F18]); f(19, "F19", o[R30::F19]); f(20, "F20", o[R30::F20]); f(21, "F21", o[R30::F21]); f(22, "F22", o[R30::F22]); f(23, "F23", o[R30::F23]); f(24, "F24", o[R30::F24]); f(25, "F25", o[R30::F25]); f(26, "F26", o[R30::F26]); f(27, "F27", o[R30::F27]); f(28, "F28", o[R30::F28]); f(29, "F29", o[R30::F29]); f(30, "F30", o[R30::F30]); }
#define WIDE_LIST X(W1) X(W3) X(W4) X(W6) X(W8) X(W11) X(W17) X(W24) X(W30) X(R2) X(R5) X(R9) X(R15) X(R30)

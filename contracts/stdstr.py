"""Trusted models of std::string members that live in libstdc++'s compiled instantiation (extern templates).
A string object is {char *data @0, size_t length @8, 16 bytes}; its characters are held in a block of their own
(the small-string buffer is not distinguished)."""
from irvc import *
BS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def s_data(eng, st, fr, i, a):
    return eng.raw_load(st, a[0], 'ptr')


def s_len(eng, st, fr, i, a):
    return eng.raw_load(st, a[0].addoff(Lin(8)), 'i64')


def nop(eng, st, fr, i, a):
    return None


STR = {BS + '::data': s_data, BS + '::c_str': s_data, BS + '::length': s_len, BS + '::size': s_len, BS + '::~basic_string': nop}

//@ entry: std_vector reach=done,present,absent
//@ entry: std_array reach=done,present,absent
//@ entry: std_map reach=done,present,absent
//@ entry: std_unordered_map reach=done,present,absent
//@ entry: immer_vector reach=done,present,absent
//@ entry: immer_flex_vector reach=done,present,absent
//@ entry: immer_array reach=done,present,absent
//@ entry: immer_map reach=done,present,absent
//@ entry: immer_table_at reach=done
//@ entry: alternatives reach=done
//@ entry: lifted reach=done
//@ entry: lifted_partial reach=done
//@ entry: chains reach=done
//@ flags: -fno-exceptions
//@ bounds: the harness of C18 (same model) compiled without exceptions: containers of 0-3 elements (maps: keys arbitrary and distinct for std::map, from a set of 5 for the hashed maps), index arbitrary (64 bits, and negative ints), elements and parts arbitrary ints emptied when moved from; engaged and empty parts; whole as const, lvalue or temporary; plain and type-erased lenses
//@ outside: setting absent keys of immer::table (C18); containers with more than 3 elements; keys of other types; everything but lenses (raising an error ends a program that is built without exceptions)
#include "C18.cpp"

#ifndef LAGER_NO_EXCEPTIONS
#error "exceptions are not disabled"
#endif

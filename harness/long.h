#pragma once
#include "spec.h"
namespace ref {
// Sizes that need more than one byte, and more than two: lengths count everything.
inline const size_t LONG_SIZES[] = { 127, 128, 255, 256, 257, 700, 32768, 65535, 65536, 70000 };
inline Val longValue(size_t n, int kind)
{
    Val v, k;
    switch (kind) {
    case 0: // an array of many bytes
        v.sig = "ay";
        k.sig = "y";
        k.num = 7;
        v.kids.assign(n, k);
        symx_bytes(&v.kids[0].num, 1, "first");
        symx_bytes(&v.kids[n - 1].num, 1, "last");
        return v;
    case 1: // an array of two strings, one of them long
        v.sig = "as";
        k.sig = "s";
        k.str.assign(n, 'l');
        symx_bytes(&k.str[n - 1], 1, "last");
        v.kids.push_back(k);
        k.str = symxString(1, "short");
        v.kids.push_back(k);
        return v;
    case 2: // a struct with a long string in front of an integer
        v.sig = "(su)";
        k.sig = "s";
        k.str.assign(n, 'l');
        symx_bytes(&k.str[n - 1], 1, "last");
        v.kids.push_back(k);
        k.sig = "u";
        k.num = 0;
        symx_bytes(&k.num, 4, "number");
        v.kids.push_back(k);
        return v;
    case 3: // a dictionary
        v.sig = "a{ss}";
        k.sig = "{ss}";
        for (int i = 0; i < 2; ++i) {
            Val t;
            t.sig = "s";
            t.str.assign(i ? n : 1, 'd');
            symx_bytes(&t.str[t.str.size() - 1], 1, "last");
            k.kids.push_back(t);
        }
        v.kids.push_back(k);
        v.kids.push_back(k);
        return v;
    default: // a variant
        v.sig = "v";
        k.sig = "s";
        k.str.assign(n, 'v');
        symx_bytes(&k.str[n - 1], 1, "last");
        v.kids.push_back(k);
        return v;
    }
}
}

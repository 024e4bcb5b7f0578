// C24: hex conversion and padding arithmetic
#include "dbus_utils.h"
#include "symx.h"
using namespace DBus;

static int nib(uint8_t c) { return c < 10 ? '0' + c : 'a' + c - 10; }

extern "C" void hex_roundtrip()
{
    size_t n = symx_choice(symx_param("maxlen", 6) + 1, "len");
    std::string b = symxString(n, "bytes"), hex, back;
    std::string pre = "pq";
    hex = pre;
    Utils::ConvertBinaryToHexString(hex, b);
    CHECK(hex.size() == 2 + 2 * n, "two digits per byte, appended");
    int ok = hex.substr(0, 2) == pre;
    for (size_t i = 0; i < n; ++i) {
        uint8_t c = b[i];
        uint8_t hi = c >> 4, lo = c & 15;
        ok &= (uint8_t)hex[2 + 2 * i] == (uint8_t)symx_ite(hi < 10, '0' + hi, 'a' + hi - 10);
        ok &= (uint8_t)hex[3 + 2 * i] == (uint8_t)symx_ite(lo < 10, '0' + lo, 'a' + lo - 10);
    }
    CHECK(ok, "hex digits");
    Utils::ConvertHexStringToBinary(back, hex.substr(2));
    CHECK(same(back, b), "hex decodes to the same bytes");
    observe("hex", hex);
    observe("back", back);
    symx_reach("done");
}

static void paddingFor(size_t pad, size_t off)
{
    size_t p = Utils::getPadding(pad, off);
    if (pad == 0) {
        CHECK(p == 0, "no alignment needs no padding");
        symx_reach("zero");
        return;
    }
    CHECK((p < pad) & ((off % pad + p) % pad == 0), "padding reaches the next multiple");
    CHECK(Utils::isAlignedTo(pad, off) == (off % pad == 0), "isAlignedTo");
    observeV("p", p);
    symx_reach("done");
}

extern "C" void padding()
{
    switch (symx_choice(3, "kind")) {
    case 0: { // the alignments that occur, every size
        size_t off = symx<size_t>("off");
        size_t pad = size_t(1) << symx_choice(16, "log2");
        paddingFor(pad, off);
        CHECK(Utils::isAlignedTo8(off) == ((off & 7) == 0), "isAlignedTo8");
        break;
    }
    case 1: { // any small alignment
        size_t pad = symx_choice(symx_param("maxpad", 24) + 1, "pad"), off = symx<uint16_t>("off") & 0xfff;
        paddingFor(pad, off);
        break;
    }
    case 2:
        paddingFor(0, symx<size_t>("off"));
        break;
    }
}

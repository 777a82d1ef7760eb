from common import *
H='''#include <wreport/varinfo.h>
#include <wreport/error.h>
#include <cstdio>
#include <cstring>
#include <string>
using namespace wreport;
'''
mkseed("c21-x31", "C21", [("wreport/varinfo.cc", "                if (WR_VAR_X(code) != 31)", "                if (WR_VAR_X(code) < 31)")],
 "the largest value of an element of class 32 or higher", "the value that means missing is accepted as a value", H+"""
int main()
{
    _Varinfo i;
    i.set_bufr(WR_VAR(0, 33, 7), "PER CENT CONFIDENCE", "%", 0, 3, 0, 7);
    return i.imax == 126 ? 0 : 1;
}
""")
mkseed("c21-parse", "C21", [("wreport/varinfo.cc", "    for (unsigned i = 1; i < 6; ++i)", "    for (unsigned i = 1; i < 5; ++i)")],
 "a code whose last character is not a digit", "it is accepted as a code that is not there", H+"""
int main()
{
    try { varcode_parse("B0100A"); return 1; } catch (error_consistency&) {}
    return varcode_parse("B01001") == WR_VAR(0, 1, 1) ? 0 : 1;
}
""")
mkseed("c21-desc", "C21", [("wreport/varinfo.cc", """    strncpy(this->desc, desc, 63); this->desc[63] = 0;
    strncpy(this->unit, unit, 23); this->unit[23] = 0;
    this->scale = scale;
    this->len = len;
    this->bit_ref = 0;""", """    strncpy(this->desc, desc, 63); this->desc[63] = 0;
    strncpy(this->unit, unit, 23);
    this->scale = scale;
    this->len = len;
    this->bit_ref = 0;""")],
 "a CREX definition with a unit of 24 characters or more, in memory that was used before", "its unit has no end", H+"""
int main()
{
    _Varinfo i;
    memset((void*)&i, 'x', sizeof i);
    i.set_crex(WR_VAR(0, 5, 1), "LATITUDE", "A UNIT WITH A VERY LONG NAME", 0, 7);
    return i.unit[23] == 0 ? 0 : 1;
}
""")

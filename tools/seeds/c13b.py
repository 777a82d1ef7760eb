from common import *
H='''#include <wreport/tables.h>
#include <wreport/varinfo.h>
#include <wreport/error.h>
#include <string>
using namespace wreport;
'''
mkseed("c13-chardata", "C13", [("wreport/tables.cc", "    auto res = chardata_table.find(code);\n    if (res != chardata_table.end())", "    auto res = chardata_table.lower_bound(code & ~0x7f);\n    if (res != chardata_table.end() && res->second.len >= len)"), ("wreport/tables.cc", """        if (res->second.code != code)
            error_consistency::throwf("Character data with length""", """        if (res->second.len < len)
            error_consistency::throwf("Character data with length""")],
 "a message with two texts of different lengths, the longer one first", "the second text gets the definition of the first", H+'''
int main()
{
    Tables t;
    t.get_chardata(WR_VAR(2, 5, 20), 20);
    auto v = t.get_chardata(WR_VAR(2, 5, 10), 10);
    return v->len == 10 && v->code == WR_VAR(2, 5, 10) ? 0 : 1;
}
''')

from common import *
CX = '''#include <wreport/bulletin.h>
#include <wreport/var.h>
#include <wreport/error.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/subset.h>
#include <cstdio>
#include <memory>
#include <string>
using namespace wreport;
static std::unique_ptr<CrexBulletin> make()
{
    auto b = CrexBulletin::create();
    b->master_table_number = 0; b->edition_number = 1; b->master_table_version_number = 3; b->master_table_version_number_bufr = 0;
    b->data_category = 0; b->data_subcategory = 255; b->data_subcategory_local = 0;
    b->load_tables();
    return b;
}
static int again(CrexBulletin& b)
{
    try {
        auto n = CrexBulletin::decode(b.encode());
        return b.diff(*n) ? 1 : 0;
    } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); return 2; }
}
'''
mkseed("c24-dash", "C24", [("wreport/buffers/crex.cc", "    if (is_signed && *cur == '-')", "    if (*cur == '-')")],
 "a text value that begins with a dash", "one character too many is read for the text and what follows it is shifted", CX+"""
int main()
{
    auto b = make();
    b->datadesc.push_back(WR_VAR(0, 1, 2)); b->datadesc.push_back(WR_VAR(0, 1, 11));
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 1, 2), 321); s.store_variable_c(WR_VAR(0, 1, 11), "-ABCDEFGH");
    return again(*b);
}
""")
mkseed("c24-neg", "C24", [("wreport/buffers/crex.cc", "            if (val < 0) ++len;", "            if (val < 0 && len < 8) ++len;")],
 "a negative value whose definition is 8 or more characters wide", "the sign takes the place of a digit, and the decoder reads the next character too", CX+"""
int main()
{
    auto b = make();
    b->datadesc.push_back(WR_VAR(0, 1, 2)); b->datadesc.push_back(WR_VAR(0, 6, 1));
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 1, 2), 321); s.store_variable_d(WR_VAR(0, 6, 1), -12.5);
    return again(*b);
}
""")
mkseed("c24-subcat", "C24", [("wreport/crex_decoder.cc", "            case 6:\n                out.data_category = static_cast<uint8_t>(val / 1000);\n                out.data_subcategory = static_cast<uint8_t>(val % 1000);", "            case 6:\n                out.data_category = static_cast<uint8_t>(val / 1000);\n                out.data_subcategory = static_cast<uint8_t>(val % 100);")],
 "a subcategory from 100 up", "the subcategory comes back without its first digit", CX+"""
int main()
{
    auto b = make();
    b->data_subcategory = 140; b->data_subcategory_local = 255;
    b->datadesc.push_back(WR_VAR(0, 1, 2));
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 1, 2), 321);
    return again(*b);
}
""")

from common import *
mkseed("c09-negscale", "C09", [("wreport/varinfo.cc", "        res = rint((fval / scales[-scale] - bit_ref));", "        res = rint((fval - bit_ref) / scales[-scale]);")],
 "a definition with negative scale and a reference value that is not zero", "the reference value is applied before scaling", VHDR+'''
int main()
{
    _Varinfo vi; vi.set_bufr(WR_VAR(0, 7, 192), "TEST", "PA", -1, 5, -500, 14);
    unsigned e = vi.encode_binary(1000);
    printf("%u\\n", e);
    return e == 600 && vi.decode_binary(e) == 1000 ? 0 : 1;
}
''')
mkseed("c09-round", "C09", [("wreport/varinfo.cc", "        return round(val * scales[scale]) / scales[scale];", "        return trunc(val * scales[scale] + 0.5) / scales[scale];")],
 "rounding a negative value", "rounded to the wrong side", VHDR+'''
int main()
{
    double r = info(WR_VAR(0, 5, 1))->round_decimal(-45.123456);
    printf("%f\\n", r);
    return fabs(r + 45.12346) < 0.000001 ? 0 : 1;
}
''')
IN='''#include <wreport/bufr/input.h>
#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/subset.h>
#include <cstdio>
using namespace wreport;
static std::string pack(std::string bits)
{
    while (bits.size() % 8) bits += '0';
    std::string raw;
    for (size_t i = 0; i < bits.size(); i += 8) { int v = 0; for (int j = 0; j < 8; ++j) v = v * 2 + (bits[i + j] - '0'); raw += (char)v; }
    return raw + "7777";
}
'''
mkseed("c10-onebit", "C10", [("wreport/bufr/input.cc", "    if (base == all_ones(info->bit_len) || diff == all_ones(diffbits))", "    if (base == all_ones(info->bit_len) || (diffbits > 1 && diff == all_ones(diffbits)))")],
 "compressed data with increments of one bit", "a missing increment is added as 1", IN+'''
int main()
{
    auto b = BufrBulletin::create(); b->edition_number = 4; b->master_table_version_number = 18; b->load_tables();
    b->obtain_subset(0); b->obtain_subset(1);
    Varinfo info = b->tables.btable->query(WR_VAR(0, 20, 11)); // 4 bits
    std::string raw = pack("0010" "000001" "0" "1");
    bufr::Input in(raw); in.s4_cursor = 0; in.pbyte_len = 0;
    bool set[2] = { false, true };
    in.decode_compressed_number(info, 2, [&](unsigned i, Var&& v) { set[i] = v.isset(); });
    printf("%d %d\\n", set[0], set[1]);
    return set[0] && !set[1] ? 0 : 1;
}
''')
mkseed("c10-textmissing", "C10", [("wreport/bufr/input.cc", "        Var copy(dest.info());\n        for (unsigned i = 1; i < subsets; ++i)", "        Var copy(dest.info());\n        for (unsigned i = 2; i < subsets; ++i)")], "", "", "") if 0 else None

from common import *
from c22 import ENC
from c24 import CX
SEVEN = ""
mkseed("c22-af2", "C22", [("wreport/bulletin/associated_fields.cc", "        case 2:\n            return var.enqa(WR_VAR(0, 33, 3));", "        case 2:\n            return var.enqa(WR_VAR(0, 33, 2));")],
 "associated fields with significance 2", "the encoder looks for an attribute that the decoder does not make, and encodes it as missing", ENC+"""
int main()
{
    auto b = empty();
    for (Varcode c : {WR_VAR(2, 4, 2), WR_VAR(0, 31, 21), WR_VAR(0, 1, 1), WR_VAR(2, 4, 0)})
        b->datadesc.push_back(c);
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 31, 21), 2);
    s.store_variable_i(WR_VAR(0, 1, 1), 11);
    s[1].seta(Var(b->tables.btable->query(WR_VAR(0, 33, 3)), 1));
    try {
        auto n = again(*b);
        return b->diff(*n) ? 1 : 0;
    } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); return 2; }
}
""")
mkseed("c10-afmissing", "C10", [("wreport/bulletin/associated_fields.cc", "    bool missing = value == all_ones(bit_count);", "    bool missing = value + (bit_count > 6) >= all_ones(bit_count);")],
 "associated fields of 7 bits or more with the highest value that is not all ones", "values are decoded as missing", ENC+"""
int main()
{
    auto b = empty();
    for (Varcode c : {WR_VAR(2, 4, 7), WR_VAR(0, 31, 21), WR_VAR(0, 1, 1), WR_VAR(2, 4, 0)})
        b->datadesc.push_back(c);
    auto& s = b->obtain_subset(0);
    s.store_variable_i(WR_VAR(0, 31, 21), 7);
    s.store_variable_i(WR_VAR(0, 1, 1), 11);
    s[1].seta(Var(b->tables.btable->query(WR_VAR(0, 33, 40)), 126));
    try {
        auto n = again(*b);
        return b->diff(*n) ? 1 : 0;
    } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); return 2; }
}
""")
mkseed("c24-sep", "C24", [("wreport/buffers/crex.cc", "i < len - 1 && !eof() && !isspace(*cur); ++cur, ++i)", "i < len - 1 && !eof() && *cur != ' '; ++cur, ++i)")],
 "a line break, not a blank, after the group of the tables or of the category", "the message is refused or its category is wrong", CX+"""
int main()
{
    try {
        auto b = CrexBulletin::decode("CREX++\\r\\r\\nT000103\\r\\r\\nA000\\r\\r\\nB01001\\r\\r\\nB01002++\\r\\r\\n12 123++\\r\\r\\n7777\\r\\r\\n");
        return b->data_category == 0 && b->subset(0).size() == 2 ? 0 : 1;
    } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); return 2; }
}
""")
mkseed("c17-count", "C17", [("wreport/var.cc", "            return abs(count1 - count2);", "            return abs(count1 - count2) & 1;")],
 "two variables where one has two attributes more than the other", "diff finds no difference", VHDR+"""
int main()
{
    Var a(info(WR_VAR(0, 12, 101)), 280.0), b(a);
    a.seta(Var(info(WR_VAR(0, 33, 2)), 1));
    b.seta(Var(info(WR_VAR(0, 33, 2)), 1)); b.seta(Var(info(WR_VAR(0, 33, 3)), 1)); b.seta(Var(info(WR_VAR(0, 33, 7)), 50));
    return a.diff(b) ? 0 : 1;
}
""")
mkseed("c23-refcode", "C23", [("wreport/bulletin/interpreter.cc", "        bit_ref = refval->second;\n", "        bit_ref = numeric ? refval->second : bit_ref;\n")],
 "a new reference value for an element that is a code table", "the new reference value is not used, and the element is read with the one in the table", ENC+"""
int main()
{
    auto b = empty();
    for (Varcode c : {WR_VAR(2, 3, 8), WR_VAR(0, 2, 1), WR_VAR(2, 3, 255), WR_VAR(0, 2, 1)})
        b->datadesc.push_back(c);
    auto& s = b->obtain_subset(0);
    Varinfo i = b->tables.btable->query(WR_VAR(0, 2, 1));
    s.store_variable(Var(b->tables.btable->query_altered(WR_VAR(0, 2, 1), i->scale, i->bit_len, -1), 1));
    try {
        auto n = again(*b);
        return n->subset(0)[0].info()->bit_ref == -1 ? 0 : 1;
    } catch (std::exception& e) { fprintf(stderr, "%s\\n", e.what()); return 2; }
}
""")

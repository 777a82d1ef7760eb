from common import *
SUB = HDR + "}\n"
mkseed("c27-skipone", "C27", [("wreport/subset.cc", "        while (src < this->size() && WR_VAR_F((*this)[src].code()) != 0)\n            ++src;", "        if (WR_VAR_F((*this)[src].code()) != 0 && src + 1 < this->size())\n            ++src;")],
 "two variables that are not data next to each other in the subset", "the second takes an item of the bitmap, and the items after it are one off", SUB+"""
int main()
{
    auto b = make(4);
    auto& s = b->obtain_subset(0);
    s.append_fixed_dpb(WR_VAR(2, 22, 0), 1);
    s.append_fixed_dpb(WR_VAR(2, 23, 0), 1);
    s.store_variable_i(WR_VAR(0, 1, 2), 321);
    s.store_variable_i(WR_VAR(0, 1, 1), 12);
    s[3].seta(Var(b->tables.btable->query(WR_VAR(0, 33, 7)), 50));
    int n = s.append_dpb(WR_VAR(2, 22, 0), 3, WR_VAR(0, 33, 7));
    return n == 1 && s.back().enq<std::string>() == "-+-" ? 0 : 1;
}
""")
mkseed("c27-last", "C27", [("wreport/bulletin.cc", "    if (subsection >= subsets.size())\n        error_notfound", "    if (subsection > subsets.size())\n        error_notfound")],
 "asking for the subset after the last", "memory past the last subset is given as a subset instead of an error", SUB+"""
int main()
{
    auto b = make(4);
    try { b->subset(1); } catch (error_notfound&) { return 0; }
    return 1;
}
""")
mkseed("c27-fixed", "C27", [("wreport/subset.cc", "    memset(bitmap, '+', size);", "    memset(bitmap, '+', static_cast<uint8_t>(size));")],
 "a fixed bitmap of 256 items or more", "part of the bitmap is not set", SUB+"""
int main()
{
    auto b = make(4);
    auto& s = b->obtain_subset(0);
    try {
        s.append_fixed_dpb(WR_VAR(2, 22, 0), 300);
        return s.back().enq<std::string>() == std::string(300, '+') ? 0 : 1;
    } catch (std::exception& e) { return 2; }
}
""")

from common import *
mkseed("c26-count", "C26", [("wreport/var.cc", "        if (x >= 10000000) {", "        if (x > 10000000) {")],
 "the number 10000000", "its last digit is lost and the memory before the text is written", VHDR+"""
#include <wreport/varinfo.h>
int main()
{
    _Varinfo i;
    i.set_bufr(WR_VAR(0, 12, 1), "TEST", "K", 0, 9, 0, 30);
    Var v(&i, 10000000);
    return v.enqs() != "10000000";
}
""")
mkseed("c26-neg", "C26", [("wreport/var.cc", "    if (*str == '-') ++str;\n    while (*str)\n        if (!isdigit(*str++))", "    while (*str)\n        if (char c = *str++; !isdigit(c) && c != '-')")],
 "text with a minus sign that is not at the start", "text that is not a number is read as a number", VHDR+"""
int main()
{
    Var v(info(WR_VAR(0, 12, 101)));
    v.setc("28-15");
    return v.isset();
}
""")
mkseed("c26-sets", "C26", [("wreport/var.cc", "            else if (val[0] == '-')\n                assign_i_checked(-str_to_unsigned(val.c_str() + 1));", "            else if (val[0] == '-')\n                assign_i_checked(-(int32_t)str_to_unsigned(val.c_str() + 1));")],
 "text of a negative number of more than ten digits set from a std::string", "a number far below the domain is stored as 1", VHDR+"""
int main()
{
    Var v(info(WR_VAR(0, 6, 2)), 1);
    try { v.sets("-99999999999"); } catch (error_domain&) {}
    return v.isset();
}
""")
mkseed("c26-binpad", "C26", [("wreport/var.cc", "        for (unsigned i = size; i < m_info->len; ++i)\n            m_value.c[i] = 0;", "        for (unsigned i = size + 1; i < m_info->len; ++i)\n            m_value.c[i] = 0;")],
 "a short binary value set on a variable that had a longer one", "a byte of the previous value stays in the new one", VHDR+"""
#include <wreport/varinfo.h>
int main()
{
    _Varinfo i;
    i.set_binary(WR_VAR(0, 1, 192), "TEST", 32);
    Var v(&i);
    v.sets(std::string("abcd"));
    v.sets(std::string("xy"));
    return v.enqs() != std::string("xy\\0\\0", 4);
}
""")
mkseed("c26-hexsign", "C26", [("wreport/var.cc", "                fprintf(out, \"%02hhX\", ((uint8_t*)m_value.c)[i]);", "                fprintf(out, \"%02X\", (unsigned)m_value.c[i]);")],
 "writing a binary value with a byte above 127 to a file", "the byte is written with eight digits", VHDR+"""
#include <wreport/varinfo.h>
int main()
{
    _Varinfo i;
    i.set_binary(WR_VAR(0, 1, 192), "TEST", 16);
    Var v(&i);
    v.sets(std::string("\\x81z"));
    FILE* f = tmpfile();
    v.format(f);
    rewind(f);
    char buf[64] = {0};
    fread(buf, 1, 63, f);
    return strcmp(buf, "817A");
}
""")

from common import *
H='''#include <wreport/conv.h>
#include <wreport/error.h>
#include <cmath>
using namespace wreport;
'''
mkseed("c11-strn", "C11", [("wreport/conv.cc", "    if (strcmp(from, to) == 0)\n        return val;\n", "    if (strncmp(from, to, 4) == 0)\n        return val;\n")],
 "two units with the same first four characters", "values are returned unchanged where the units differ or the conversion does not exist", H+'''
int main()
{
    try { convert_units("DEGREE TRUE", "DEGREE**2", 5); return 1; } catch (error_unimplemented&) {}
    return 0;
}
''')
mkseed("c11-cal", "C11", [("wreport/conv.cc", '        add_linear("cal/h/cm**2", "W/M**2", 11.63, 0);', '        add_linear("cal/h/cm**2", "W/M**2", 1.163, 0);')],
 "a flux in calories per hour and square centimetre", "the flux comes out ten times smaller", H+"""
int main() { return fabs(convert_units("cal/h/cm**2", "W/M**2", 100) - 1163) < 1 ? 0 : 1; }
""")
mkseed("c11-oct", "C11", [("wreport/conv.cc", "  else if (from > 202.5 && from <= 247.5)\n    return 5;", "  else if (from > 202.5 && from < 247.5)\n    return 5;")],
 "a direction of exactly 247.5 degrees", "it is rounded up to octant 7 instead of down to 5, two octants away", H+"""
int main() { return convert_degrees_to_octants(247.5) == 5 ? 0 : 1; }
""")

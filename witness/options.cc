// Uses of scoped overrides, as an application writes them. Compiled, never run.
#include "wreport/options.h"

using namespace wreport;
using namespace wreport::options;

// Whatever the application does while the override is in place
void body();

void w_silent(bool v) { auto o = local_override(var_silent_domain_errors, v); body(); }
void w_clamp(bool v) { auto o = local_override(var_clamp_domain_errors, v); body(); }
void w_hook(DomainErrorHook* v) { auto o = local_override(var_hook_domain_errors, v); body(); }
void w_silent_direct(bool v) { LocalOverride<bool> o(var_silent_domain_errors, v); body(); }
void w_clamp_direct(bool v) { LocalOverride<bool> o(var_clamp_domain_errors, v); body(); }
void w_hook_direct(DomainErrorHook* v) { LocalOverride<DomainErrorHook*> o(var_hook_domain_errors, v); body(); }
void w_nested(bool v, bool w)
{
    auto o = local_override(var_silent_domain_errors, v);
    {
        auto p = local_override(var_silent_domain_errors, w);
        body();
    }
    body();
}
void w_two(bool v, bool w)
{
    auto o = local_override(var_silent_domain_errors, v);
    auto p = local_override(var_clamp_domain_errors, w);
    body();
}
int w_return(bool v, int x)
{
    auto o = local_override(var_clamp_domain_errors, v);
    if (x > 3) return x;
    body();
    return -x;
}

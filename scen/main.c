#include <string.h>
#include "mc.h"
extern mc_scen_t const *const __start_mcscen[], *const __stop_mcscen[];
void (*mc_find_scenario(const char *name))(void)
{
    for (mc_scen_t const *const *p = __start_mcscen; p < __stop_mcscen; p++)
        if (!strcmp((*p)->name, name)) return (*p)->fn;
    return 0;
}

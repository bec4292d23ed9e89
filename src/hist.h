#pragma once
#include "app.h"
void mon_c02(App &, XServ &);
void mon_c03(App &, XServ &, bool strict);

// included in front of the example chat server: a delay after its searches of the list of
// participants (a schedule perturbation; it does nothing unless C23.race switches it on)
#pragma once
#include <algorithm>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
extern void (*volatile pbt_after_find)();
namespace std { template <class I, class P> I pbt_find_if(I a, I b, P p) { I r = find_if(a, b, p); if (pbt_after_find) pbt_after_find(); return r; } }
#define find_if pbt_find_if

// The installed casacore has a Dysco storage manager of its own, which stays
// the registered one when another is registered under the same name. Remove it,
// so that every table is opened by the storage manager of /repo.
#include <casacore/tables/DataMan/DataManager.h>

#include <map>

extern std::map<casacore::String, casacore::DataManagerCtor> registeredManagers
    asm("_ZN8casacore11DataManager16theirRegisterMapE");

__attribute__((constructor(101))) static void unregisterBuiltin() {
  registeredManagers.erase("DyscoStMan");
}

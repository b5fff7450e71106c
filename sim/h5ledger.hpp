// Ledger of the HDF5 identifiers the code under test obtained and gave back.
// The calls into the HDF5 library are interposed: what counts is what LUE does, not what the library itself
// manages to release when the storage fails underneath it.
#pragma once
#include <cstdint>
#include <string>

namespace h5ledger {
    void start();                 // forget everything obtained before (constants of the library)
    long outstanding();           // references obtained since start() and not given back
    long failed_closes();         // calls of close that the library reported to have failed
    long over_released();         // close called more often than references were obtained
    std::string describe();       // kinds of the outstanding identifiers
    // HDF5 1.10 loses raw data that its metadata accumulator read along with metadata (it does not update its copy
    // when the raw data is written). Call this to do without the accumulator; must be called before start().
    void without_accumulator(bool off);
}

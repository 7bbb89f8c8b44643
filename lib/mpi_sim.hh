// MPI for ranks that are threads of one controlled execution.  The real boost::mpi library calls these functions.
#pragma once
#include <functional>
#include <string>
namespace sim {
enum Sends { BUFFERED, SYNCHRONOUS, EITHER };   // EITHER: each send may block until received, at the price of one deviation
void setup(int ranks, Sends s, const std::function<std::string(int code)> & aborted);   // aborted: judges an execution that ends with MPI_Abort
bool all_finalized();
std::string undelivered();                      // messages nobody received
extern long sent;
}

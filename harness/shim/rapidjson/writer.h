#pragma once
namespace rapidjson { template <class T> class Writer; }

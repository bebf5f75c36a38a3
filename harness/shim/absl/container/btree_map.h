#pragma once
#include <map>
#include <set>
namespace absl { template <class... A> using btree_map = std::map<A...>; template <class... A> using btree_set = std::set<A...>; }

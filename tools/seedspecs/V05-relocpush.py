ID='V05-relocpush'; PROPERTY='V05'
EDITS=[('container/stdb_vector.hpp','''                this->realloc_and_emplace_back(compute_next_capacity(), std::forward<const_reference>(value));
            }''','''                const auto next = compute_next_capacity();
                if constexpr (IsRelocatable<T> and not std::is_trivial_v<T>) {
                    // the elements may stay where they are
                    this->realloc_with_old_data(next);
                    copy_cref(this->_finish++, value);
                } else {
                    this->realloc_and_emplace_back(next, std::forward<const_reference>(value));
                }
            }''')]
NEEDS='push_back of an element of the same full vector of a relocatable class'
BREAKS='the element is read from the freed buffer'
DEMO=r'''
#include "container/stdb_vector.hpp"
#include "string/string.hpp"
using stdb::memory::string;
template <> struct stdb::Relocatable<string> : std::true_type {};
int main() { stdb::container::stdb_vector<string> v; v.push_back(string(100, 'a')); while (v.size() < v.capacity()) v.push_back("b"); v.push_back(v[0]); return v.back() != string(100, 'a'); }
'''

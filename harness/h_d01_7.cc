#include "ser_types.h"
void kinds7()
{
    ADD(2, std::map<std::string, std::vector<int16_t>>);
    ADD(2, std::map<std::string, std::deque<std::string>>);
    ADD(2, std::map<std::string, std::list<std::string>>);
    ADD(2, std::map<std::string, std::forward_list<std::string>>);
    ADD(2, std::map<std::string, std::map<int16_t, std::string>>);
    ADD(2, std::map<std::string, std::map<std::string, int16_t>>);
    ADD(2, std::map<std::string, std::multimap<int16_t, int16_t>>);
    ADD(2, std::map<std::string, std::unordered_map<std::string, int16_t>>);
    ADD(2, std::map<std::string, std::unordered_multimap<int16_t, std::string>>);
    ADD(2, std::map<std::string, std::stack<std::string>>);
    ADD(2, std::map<std::string, std::queue<int16_t>>);
    ADD(2, std::map<std::string, std::pair<std::string, std::string>>);
    ADD(2, std::map<std::string, std::pair<int8_t, std::string>>);
    ADD(2, std::map<std::string, std::tuple<std::string, int8_t, std::string>>);
    ADD(2, std::map<std::string, std::array<int16_t, 3>>);
    ADD(2, std::map<std::string, dom::Agg<int16_t>>);
    ADD(2, std::map<std::string, dom::Cls<std::string>>);
    ADD(2, std::map<std::string, dom::CArr<std::string>>);
    ADD(2, std::map<std::string, std::optional<int16_t>>);
    ADD(2, std::map<std::string, std::variant<int8_t, int16_t, std::list<int16_t>>>);
    ADD(2, std::map<std::string, std::unique_ptr<int16_t>>);
    ADD(2, std::map<std::string, std::shared_ptr<int16_t>>);
    ADD(2, std::map<std::string, std::string*>);
    ADD(2, std::map<std::string, dom::DynArr<int16_t, size_t>>);
    ADD(2, std::map<std::string, dom::UniArr<std::string, uint16_t>>);
    ADD(2, std::map<std::string, dom::ShArr<int16_t, int>>);
    ADD(2, std::map<std::string, std::set<std::string>>);
    ADD(2, std::map<std::string, std::multiset<std::string>>);
    ADD(2, std::map<std::string, std::unordered_set<std::string>>);
    ADD(2, std::map<std::string, std::unordered_multiset<std::string>>);
    ADD(2, std::pair<std::vector<std::string>, std::string>);
    ADD(2, std::pair<std::deque<int16_t>, std::string>);
    ADD(2, std::pair<std::list<int16_t>, std::string>);
    ADD(2, std::pair<std::forward_list<int16_t>, std::string>);
    ADD(2, std::pair<std::map<int16_t, int16_t>, std::string>);
    ADD(2, std::pair<std::map<std::string, std::string>, std::string>);
    ADD(2, std::pair<std::multimap<int16_t, std::string>, std::string>);
    ADD(2, std::pair<std::unordered_map<std::string, std::string>, std::string>);
    ADD(2, std::pair<std::unordered_multimap<int16_t, int16_t>, std::string>);
    ADD(2, std::pair<std::stack<int16_t>, std::string>);
    ADD(2, std::pair<std::queue<std::string>, std::string>);
    ADD(2, std::pair<std::pair<int16_t, std::string>, std::string>);
    ADD(2, std::pair<std::pair<int8_t, int16_t>, std::string>);
    ADD(2, std::pair<std::tuple<int16_t, int8_t, int16_t>, std::string>);
    ADD(2, std::pair<std::array<std::string, 3>, std::string>);
    ADD(2, std::pair<dom::Agg<std::string>, std::string>);
    ADD(2, std::pair<dom::Cls<int16_t>, std::string>);
    ADD(2, std::pair<dom::CArr<int16_t>, std::string>);
    ADD(2, std::pair<std::optional<std::string>, std::string>);
    ADD(2, std::pair<std::variant<int8_t, std::string, std::list<std::string>>, std::string>);
    ADD(2, std::pair<std::unique_ptr<std::string>, std::string>);
    ADD(2, std::pair<std::shared_ptr<std::string>, std::string>);
    ADD(2, std::pair<int16_t*, std::string>);
    ADD(2, std::pair<dom::DynArr<std::string, size_t>, std::string>);
    ADD(2, std::pair<dom::UniArr<int16_t, uint16_t>, std::string>);
    ADD(2, std::pair<dom::ShArr<std::string, int>, std::string>);
    ADD(2, std::pair<std::set<std::string>, std::string>);
    ADD(2, std::pair<std::multiset<std::string>, std::string>);
    ADD(2, std::pair<std::unordered_set<std::string>, std::string>);
    ADD(2, std::pair<std::unordered_multiset<std::string>, std::string>);
    ADD(2, dom::CArr<std::vector<std::string>>);
    ADD(2, dom::CArr<std::deque<int16_t>>);
    ADD(2, dom::CArr<std::list<int16_t>>);
    ADD(2, dom::CArr<std::forward_list<int16_t>>);
    ADD(2, dom::CArr<std::map<int16_t, int16_t>>);
    ADD(2, dom::CArr<std::map<std::string, std::string>>);
    ADD(2, dom::CArr<std::multimap<int16_t, std::string>>);
    ADD(2, dom::CArr<std::unordered_map<std::string, std::string>>);
    ADD(2, dom::CArr<std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, dom::CArr<std::stack<int16_t>>);
    ADD(2, dom::CArr<std::queue<std::string>>);
    ADD(2, dom::CArr<std::pair<int16_t, std::string>>);
    ADD(2, dom::CArr<std::pair<int8_t, int16_t>>);
    ADD(2, dom::CArr<std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, dom::CArr<std::array<std::string, 3>>);
    ADD(2, dom::CArr<dom::Agg<std::string>>);
    ADD(2, dom::CArr<dom::Cls<int16_t>>);
    ADD(2, dom::CArr<dom::CArr<int16_t>>);
    ADD(2, dom::CArr<std::optional<std::string>>);
    ADD(2, dom::CArr<std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, dom::CArr<std::unique_ptr<std::string>>);
    ADD(2, dom::CArr<std::shared_ptr<std::string>>);
    ADD(2, dom::CArr<int16_t*>);
    ADD(2, dom::CArr<dom::DynArr<std::string, size_t>>);
    ADD(2, dom::CArr<dom::UniArr<int16_t, uint16_t>>);
    ADD(2, dom::CArr<dom::ShArr<std::string, int>>);
    ADD(2, dom::CArr<std::set<std::string>>);
    ADD(2, dom::CArr<std::multiset<std::string>>);
    ADD(2, dom::CArr<std::unordered_set<std::string>>);
    ADD(2, dom::CArr<std::unordered_multiset<std::string>>);
    ADD(2, dom::DynArr<std::vector<int16_t>, size_t>);
    ADD(2, dom::DynArr<std::deque<std::string>, size_t>);
    ADD(2, dom::DynArr<std::list<std::string>, size_t>);
    ADD(2, dom::DynArr<std::forward_list<std::string>, size_t>);
    ADD(2, dom::DynArr<std::map<int16_t, std::string>, size_t>);
    ADD(2, dom::DynArr<std::map<std::string, int16_t>, size_t>);
    ADD(2, dom::DynArr<std::multimap<int16_t, int16_t>, size_t>);
    ADD(2, dom::DynArr<std::unordered_map<std::string, int16_t>, size_t>);
    ADD(2, dom::DynArr<std::unordered_multimap<int16_t, std::string>, size_t>);
    ADD(2, dom::DynArr<std::stack<std::string>, size_t>);
    ADD(2, dom::DynArr<std::queue<int16_t>, size_t>);
    ADD(2, dom::DynArr<std::pair<std::string, std::string>, size_t>);
    ADD(2, dom::DynArr<std::pair<int8_t, std::string>, size_t>);
    ADD(2, dom::DynArr<std::tuple<std::string, int8_t, std::string>, size_t>);
    ADD(2, dom::DynArr<std::array<int16_t, 3>, size_t>);
    ADD(2, dom::DynArr<dom::Agg<int16_t>, size_t>);
    ADD(2, dom::DynArr<dom::Cls<std::string>, size_t>);
    ADD(2, dom::DynArr<dom::CArr<std::string>, size_t>);
    ADD(2, dom::DynArr<std::optional<int16_t>, size_t>);
    ADD(2, dom::DynArr<std::variant<int8_t, int16_t, std::list<int16_t>>, size_t>);
    ADD(2, dom::DynArr<std::unique_ptr<int16_t>, size_t>);
    ADD(2, dom::DynArr<std::shared_ptr<int16_t>, size_t>);
    ADD(2, dom::DynArr<std::string*, size_t>);
    ADD(2, dom::DynArr<dom::DynArr<int16_t, size_t>, size_t>);
    ADD(2, dom::DynArr<dom::UniArr<std::string, uint16_t>, size_t>);
    ADD(2, dom::DynArr<dom::ShArr<int16_t, int>, size_t>);
    ADD(2, dom::DynArr<std::set<std::string>, size_t>);
    ADD(2, dom::DynArr<std::multiset<std::string>, size_t>);
    ADD(2, dom::DynArr<std::unordered_set<std::string>, size_t>);
    ADD(2, dom::DynArr<std::unordered_multiset<std::string>, size_t>);
}

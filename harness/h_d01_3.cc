#include "ser_types.h"
void kinds3()
{
    ADD(2, std::deque<std::vector<std::string>>);
    ADD(2, std::deque<std::deque<int16_t>>);
    ADD(2, std::deque<std::list<int16_t>>);
    ADD(2, std::deque<std::forward_list<int16_t>>);
    ADD(2, std::deque<std::map<int16_t, int16_t>>);
    ADD(2, std::deque<std::map<std::string, std::string>>);
    ADD(2, std::deque<std::multimap<int16_t, std::string>>);
    ADD(2, std::deque<std::unordered_map<std::string, std::string>>);
    ADD(2, std::deque<std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, std::deque<std::stack<int16_t>>);
    ADD(2, std::deque<std::queue<std::string>>);
    ADD(2, std::deque<std::pair<int16_t, std::string>>);
    ADD(2, std::deque<std::pair<int8_t, int16_t>>);
    ADD(2, std::deque<std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, std::deque<std::array<std::string, 3>>);
    ADD(2, std::deque<dom::Agg<std::string>>);
    ADD(2, std::deque<dom::Cls<int16_t>>);
    ADD(2, std::deque<dom::CArr<int16_t>>);
    ADD(2, std::deque<std::optional<std::string>>);
    ADD(2, std::deque<std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, std::deque<std::unique_ptr<std::string>>);
    ADD(2, std::deque<std::shared_ptr<std::string>>);
    ADD(2, std::deque<int16_t*>);
    ADD(2, std::deque<dom::DynArr<std::string, size_t>>);
    ADD(2, std::deque<dom::UniArr<int16_t, uint16_t>>);
    ADD(2, std::deque<dom::ShArr<std::string, int>>);
    ADD(2, std::deque<std::set<std::string>>);
    ADD(2, std::deque<std::multiset<std::string>>);
    ADD(2, std::deque<std::unordered_set<std::string>>);
    ADD(2, std::deque<std::unordered_multiset<std::string>>);
    ADD(2, std::unordered_map<std::string, std::vector<int16_t>>);
    ADD(2, std::unordered_map<std::string, std::deque<std::string>>);
    ADD(2, std::unordered_map<std::string, std::list<std::string>>);
    ADD(2, std::unordered_map<std::string, std::forward_list<std::string>>);
    ADD(2, std::unordered_map<std::string, std::map<int16_t, std::string>>);
    ADD(2, std::unordered_map<std::string, std::map<std::string, int16_t>>);
    ADD(2, std::unordered_map<std::string, std::multimap<int16_t, int16_t>>);
    ADD(2, std::unordered_map<std::string, std::unordered_map<std::string, int16_t>>);
    ADD(2, std::unordered_map<std::string, std::unordered_multimap<int16_t, std::string>>);
    ADD(2, std::unordered_map<std::string, std::stack<std::string>>);
    ADD(2, std::unordered_map<std::string, std::queue<int16_t>>);
    ADD(2, std::unordered_map<std::string, std::pair<std::string, std::string>>);
    ADD(2, std::unordered_map<std::string, std::pair<int8_t, std::string>>);
    ADD(2, std::unordered_map<std::string, std::tuple<std::string, int8_t, std::string>>);
    ADD(2, std::unordered_map<std::string, std::array<int16_t, 3>>);
    ADD(2, std::unordered_map<std::string, dom::Agg<int16_t>>);
    ADD(2, std::unordered_map<std::string, dom::Cls<std::string>>);
    ADD(2, std::unordered_map<std::string, dom::CArr<std::string>>);
    ADD(2, std::unordered_map<std::string, std::optional<int16_t>>);
    ADD(2, std::unordered_map<std::string, std::variant<int8_t, int16_t, std::list<int16_t>>>);
    ADD(2, std::unordered_map<std::string, std::unique_ptr<int16_t>>);
    ADD(2, std::unordered_map<std::string, std::shared_ptr<int16_t>>);
    ADD(2, std::unordered_map<std::string, std::string*>);
    ADD(2, std::unordered_map<std::string, dom::DynArr<int16_t, size_t>>);
    ADD(2, std::unordered_map<std::string, dom::UniArr<std::string, uint16_t>>);
    ADD(2, std::unordered_map<std::string, dom::ShArr<int16_t, int>>);
    ADD(2, std::unordered_map<std::string, std::set<std::string>>);
    ADD(2, std::unordered_map<std::string, std::multiset<std::string>>);
    ADD(2, std::unordered_map<std::string, std::unordered_set<std::string>>);
    ADD(2, std::unordered_map<std::string, std::unordered_multiset<std::string>>);
    ADD(2, std::tuple<std::vector<std::string>, int8_t, std::vector<std::string>>);
    ADD(2, std::tuple<std::deque<int16_t>, int8_t, std::deque<int16_t>>);
    ADD(2, std::tuple<std::list<int16_t>, int8_t, std::list<int16_t>>);
    ADD(2, std::tuple<std::forward_list<int16_t>, int8_t, std::forward_list<int16_t>>);
    ADD(2, std::tuple<std::map<int16_t, int16_t>, int8_t, std::map<int16_t, int16_t>>);
    ADD(2, std::tuple<std::map<std::string, std::string>, int8_t, std::map<std::string, std::string>>);
    ADD(2, std::tuple<std::multimap<int16_t, std::string>, int8_t, std::multimap<int16_t, std::string>>);
    ADD(2, std::tuple<std::unordered_map<std::string, std::string>, int8_t, std::unordered_map<std::string, std::string>>);
    ADD(2, std::tuple<std::unordered_multimap<int16_t, int16_t>, int8_t, std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, std::tuple<std::stack<int16_t>, int8_t, std::stack<int16_t>>);
    ADD(2, std::tuple<std::queue<std::string>, int8_t, std::queue<std::string>>);
    ADD(2, std::tuple<std::pair<int16_t, std::string>, int8_t, std::pair<int16_t, std::string>>);
    ADD(2, std::tuple<std::pair<int8_t, int16_t>, int8_t, std::pair<int8_t, int16_t>>);
    ADD(2, std::tuple<std::tuple<int16_t, int8_t, int16_t>, int8_t, std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, std::tuple<std::array<std::string, 3>, int8_t, std::array<std::string, 3>>);
    ADD(2, std::tuple<dom::Agg<std::string>, int8_t, dom::Agg<std::string>>);
    ADD(2, std::tuple<dom::Cls<int16_t>, int8_t, dom::Cls<int16_t>>);
    ADD(2, std::tuple<dom::CArr<int16_t>, int8_t, dom::CArr<int16_t>>);
    ADD(2, std::tuple<std::optional<std::string>, int8_t, std::optional<std::string>>);
    ADD(2, std::tuple<std::variant<int8_t, std::string, std::list<std::string>>, int8_t, std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, std::tuple<std::unique_ptr<std::string>, int8_t, std::unique_ptr<std::string>>);
    ADD(2, std::tuple<std::shared_ptr<std::string>, int8_t, std::shared_ptr<std::string>>);
    ADD(2, std::tuple<int16_t*, int8_t, int16_t*>);
    ADD(2, std::tuple<dom::DynArr<std::string, size_t>, int8_t, dom::DynArr<std::string, size_t>>);
    ADD(2, std::tuple<dom::UniArr<int16_t, uint16_t>, int8_t, dom::UniArr<int16_t, uint16_t>>);
    ADD(2, std::tuple<dom::ShArr<std::string, int>, int8_t, dom::ShArr<std::string, int>>);
    ADD(2, std::tuple<std::set<std::string>, int8_t, std::set<std::string>>);
    ADD(2, std::tuple<std::multiset<std::string>, int8_t, std::multiset<std::string>>);
    ADD(2, std::tuple<std::unordered_set<std::string>, int8_t, std::unordered_set<std::string>>);
    ADD(2, std::tuple<std::unordered_multiset<std::string>, int8_t, std::unordered_multiset<std::string>>);
    ADD(2, std::variant<int8_t, std::vector<int16_t>, std::list<std::vector<int16_t>>>);
    ADD(2, std::variant<int8_t, std::deque<std::string>, std::list<std::deque<std::string>>>);
    ADD(2, std::variant<int8_t, std::list<std::string>, std::list<std::list<std::string>>>);
    ADD(2, std::variant<int8_t, std::forward_list<std::string>, std::list<std::forward_list<std::string>>>);
    ADD(2, std::variant<int8_t, std::map<int16_t, std::string>, std::list<std::map<int16_t, std::string>>>);
    ADD(2, std::variant<int8_t, std::map<std::string, int16_t>, std::list<std::map<std::string, int16_t>>>);
    ADD(2, std::variant<int8_t, std::multimap<int16_t, int16_t>, std::list<std::multimap<int16_t, int16_t>>>);
    ADD(2, std::variant<int8_t, std::unordered_map<std::string, int16_t>, std::list<std::unordered_map<std::string, int16_t>>>);
    ADD(2, std::variant<int8_t, std::unordered_multimap<int16_t, std::string>, std::list<std::unordered_multimap<int16_t, std::string>>>);
    ADD(2, std::variant<int8_t, std::stack<std::string>, std::list<std::stack<std::string>>>);
    ADD(2, std::variant<int8_t, std::queue<int16_t>, std::list<std::queue<int16_t>>>);
    ADD(2, std::variant<int8_t, std::pair<std::string, std::string>, std::list<std::pair<std::string, std::string>>>);
    ADD(2, std::variant<int8_t, std::pair<int8_t, std::string>, std::list<std::pair<int8_t, std::string>>>);
    ADD(2, std::variant<int8_t, std::tuple<std::string, int8_t, std::string>, std::list<std::tuple<std::string, int8_t, std::string>>>);
    ADD(2, std::variant<int8_t, std::array<int16_t, 3>, std::list<std::array<int16_t, 3>>>);
    ADD(2, std::variant<int8_t, dom::Agg<int16_t>, std::list<dom::Agg<int16_t>>>);
    ADD(2, std::variant<int8_t, dom::Cls<std::string>, std::list<dom::Cls<std::string>>>);
    ADD(2, std::variant<int8_t, dom::CArr<std::string>, std::list<dom::CArr<std::string>>>);
    ADD(2, std::variant<int8_t, std::optional<int16_t>, std::list<std::optional<int16_t>>>);
    ADD(2, std::variant<int8_t, std::variant<int8_t, int16_t, std::list<int16_t>>, std::list<std::variant<int8_t, int16_t, std::list<int16_t>>>>);
    ADD(2, std::variant<int8_t, std::unique_ptr<int16_t>, std::list<std::unique_ptr<int16_t>>>);
    ADD(2, std::variant<int8_t, std::shared_ptr<int16_t>, std::list<std::shared_ptr<int16_t>>>);
    ADD(2, std::variant<int8_t, std::string*, std::list<std::string*>>);
    ADD(2, std::variant<int8_t, dom::DynArr<int16_t, size_t>, std::list<dom::DynArr<int16_t, size_t>>>);
    ADD(2, std::variant<int8_t, dom::UniArr<std::string, uint16_t>, std::list<dom::UniArr<std::string, uint16_t>>>);
    ADD(2, std::variant<int8_t, dom::ShArr<int16_t, int>, std::list<dom::ShArr<int16_t, int>>>);
    ADD(2, std::variant<int8_t, std::set<std::string>, std::list<std::set<std::string>>>);
    ADD(2, std::variant<int8_t, std::multiset<std::string>, std::list<std::multiset<std::string>>>);
    ADD(2, std::variant<int8_t, std::unordered_set<std::string>, std::list<std::unordered_set<std::string>>>);
    ADD(2, std::variant<int8_t, std::unordered_multiset<std::string>, std::list<std::unordered_multiset<std::string>>>);
    ADD(2, dom::ShArr<std::vector<int16_t>, int>);
    ADD(2, dom::ShArr<std::deque<std::string>, int>);
    ADD(2, dom::ShArr<std::list<std::string>, int>);
    ADD(2, dom::ShArr<std::forward_list<std::string>, int>);
    ADD(2, dom::ShArr<std::map<int16_t, std::string>, int>);
    ADD(2, dom::ShArr<std::map<std::string, int16_t>, int>);
    ADD(2, dom::ShArr<std::multimap<int16_t, int16_t>, int>);
    ADD(2, dom::ShArr<std::unordered_map<std::string, int16_t>, int>);
    ADD(2, dom::ShArr<std::unordered_multimap<int16_t, std::string>, int>);
    ADD(2, dom::ShArr<std::stack<std::string>, int>);
    ADD(2, dom::ShArr<std::queue<int16_t>, int>);
    ADD(2, dom::ShArr<std::pair<std::string, std::string>, int>);
    ADD(2, dom::ShArr<std::pair<int8_t, std::string>, int>);
    ADD(2, dom::ShArr<std::tuple<std::string, int8_t, std::string>, int>);
    ADD(2, dom::ShArr<std::array<int16_t, 3>, int>);
    ADD(2, dom::ShArr<dom::Agg<int16_t>, int>);
    ADD(2, dom::ShArr<dom::Cls<std::string>, int>);
    ADD(2, dom::ShArr<dom::CArr<std::string>, int>);
    ADD(2, dom::ShArr<std::optional<int16_t>, int>);
    ADD(2, dom::ShArr<std::variant<int8_t, int16_t, std::list<int16_t>>, int>);
    ADD(2, dom::ShArr<std::unique_ptr<int16_t>, int>);
    ADD(2, dom::ShArr<std::shared_ptr<int16_t>, int>);
    ADD(2, dom::ShArr<std::string*, int>);
    ADD(2, dom::ShArr<dom::DynArr<int16_t, size_t>, int>);
    ADD(2, dom::ShArr<dom::UniArr<std::string, uint16_t>, int>);
    ADD(2, dom::ShArr<dom::ShArr<int16_t, int>, int>);
    ADD(2, dom::ShArr<std::set<std::string>, int>);
    ADD(2, dom::ShArr<std::multiset<std::string>, int>);
    ADD(2, dom::ShArr<std::unordered_set<std::string>, int>);
    ADD(2, dom::ShArr<std::unordered_multiset<std::string>, int>);
}

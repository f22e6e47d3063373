#include "ser_types.h"
void kinds4()
{
    ADD(2, std::list<std::vector<std::string>>);
    ADD(2, std::list<std::deque<int16_t>>);
    ADD(2, std::list<std::list<int16_t>>);
    ADD(2, std::list<std::forward_list<int16_t>>);
    ADD(2, std::list<std::map<int16_t, int16_t>>);
    ADD(2, std::list<std::map<std::string, std::string>>);
    ADD(2, std::list<std::multimap<int16_t, std::string>>);
    ADD(2, std::list<std::unordered_map<std::string, std::string>>);
    ADD(2, std::list<std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, std::list<std::stack<int16_t>>);
    ADD(2, std::list<std::queue<std::string>>);
    ADD(2, std::list<std::pair<int16_t, std::string>>);
    ADD(2, std::list<std::pair<int8_t, int16_t>>);
    ADD(2, std::list<std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, std::list<std::array<std::string, 3>>);
    ADD(2, std::list<dom::Agg<std::string>>);
    ADD(2, std::list<dom::Cls<int16_t>>);
    ADD(2, std::list<dom::CArr<int16_t>>);
    ADD(2, std::list<std::optional<std::string>>);
    ADD(2, std::list<std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, std::list<std::unique_ptr<std::string>>);
    ADD(2, std::list<std::shared_ptr<std::string>>);
    ADD(2, std::list<int16_t*>);
    ADD(2, std::list<dom::DynArr<std::string, size_t>>);
    ADD(2, std::list<dom::UniArr<int16_t, uint16_t>>);
    ADD(2, std::list<dom::ShArr<std::string, int>>);
    ADD(2, std::list<std::set<std::string>>);
    ADD(2, std::list<std::multiset<std::string>>);
    ADD(2, std::list<std::unordered_set<std::string>>);
    ADD(2, std::list<std::unordered_multiset<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::vector<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::deque<int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::list<int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::forward_list<int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::map<int16_t, int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::map<std::string, std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::multimap<int16_t, std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::unordered_map<std::string, std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::stack<int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::queue<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::pair<int16_t, std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::pair<int8_t, int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::array<std::string, 3>>);
    ADD(2, std::unordered_multimap<int16_t, dom::Agg<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, dom::Cls<int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, dom::CArr<int16_t>>);
    ADD(2, std::unordered_multimap<int16_t, std::optional<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, std::unordered_multimap<int16_t, std::unique_ptr<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::shared_ptr<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, int16_t*>);
    ADD(2, std::unordered_multimap<int16_t, dom::DynArr<std::string, size_t>>);
    ADD(2, std::unordered_multimap<int16_t, dom::UniArr<int16_t, uint16_t>>);
    ADD(2, std::unordered_multimap<int16_t, dom::ShArr<std::string, int>>);
    ADD(2, std::unordered_multimap<int16_t, std::set<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::multiset<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::unordered_set<std::string>>);
    ADD(2, std::unordered_multimap<int16_t, std::unordered_multiset<std::string>>);
    ADD(2, std::array<std::vector<int16_t>, 3>);
    ADD(2, std::array<std::deque<std::string>, 3>);
    ADD(2, std::array<std::list<std::string>, 3>);
    ADD(2, std::array<std::forward_list<std::string>, 3>);
    ADD(2, std::array<std::map<int16_t, std::string>, 3>);
    ADD(2, std::array<std::map<std::string, int16_t>, 3>);
    ADD(2, std::array<std::multimap<int16_t, int16_t>, 3>);
    ADD(2, std::array<std::unordered_map<std::string, int16_t>, 3>);
    ADD(2, std::array<std::unordered_multimap<int16_t, std::string>, 3>);
    ADD(2, std::array<std::stack<std::string>, 3>);
    ADD(2, std::array<std::queue<int16_t>, 3>);
    ADD(2, std::array<std::pair<std::string, std::string>, 3>);
    ADD(2, std::array<std::pair<int8_t, std::string>, 3>);
    ADD(2, std::array<std::tuple<std::string, int8_t, std::string>, 3>);
    ADD(2, std::array<std::array<int16_t, 3>, 3>);
    ADD(2, std::array<dom::Agg<int16_t>, 3>);
    ADD(2, std::array<dom::Cls<std::string>, 3>);
    ADD(2, std::array<dom::CArr<std::string>, 3>);
    ADD(2, std::array<std::optional<int16_t>, 3>);
    ADD(2, std::array<std::variant<int8_t, int16_t, std::list<int16_t>>, 3>);
    ADD(2, std::array<std::unique_ptr<int16_t>, 3>);
    ADD(2, std::array<std::shared_ptr<int16_t>, 3>);
    ADD(2, std::array<std::string*, 3>);
    ADD(2, std::array<dom::DynArr<int16_t, size_t>, 3>);
    ADD(2, std::array<dom::UniArr<std::string, uint16_t>, 3>);
    ADD(2, std::array<dom::ShArr<int16_t, int>, 3>);
    ADD(2, std::array<std::set<std::string>, 3>);
    ADD(2, std::array<std::multiset<std::string>, 3>);
    ADD(2, std::array<std::unordered_set<std::string>, 3>);
    ADD(2, std::array<std::unordered_multiset<std::string>, 3>);
    ADD(2, std::unique_ptr<std::vector<int16_t>>);
    ADD(2, std::unique_ptr<std::deque<std::string>>);
    ADD(2, std::unique_ptr<std::list<std::string>>);
    ADD(2, std::unique_ptr<std::forward_list<std::string>>);
    ADD(2, std::unique_ptr<std::map<int16_t, std::string>>);
    ADD(2, std::unique_ptr<std::map<std::string, int16_t>>);
    ADD(2, std::unique_ptr<std::multimap<int16_t, int16_t>>);
    ADD(2, std::unique_ptr<std::unordered_map<std::string, int16_t>>);
    ADD(2, std::unique_ptr<std::unordered_multimap<int16_t, std::string>>);
    ADD(2, std::unique_ptr<std::stack<std::string>>);
    ADD(2, std::unique_ptr<std::queue<int16_t>>);
    ADD(2, std::unique_ptr<std::pair<std::string, std::string>>);
    ADD(2, std::unique_ptr<std::pair<int8_t, std::string>>);
    ADD(2, std::unique_ptr<std::tuple<std::string, int8_t, std::string>>);
    ADD(2, std::unique_ptr<std::array<int16_t, 3>>);
    ADD(2, std::unique_ptr<dom::Cls<std::string>>);
    ADD(2, std::unique_ptr<dom::CArr<std::string>>);
    ADD(2, std::unique_ptr<dom::DynArr<int16_t, size_t>>);
    ADD(2, std::unique_ptr<dom::UniArr<std::string, uint16_t>>);
    ADD(2, std::unique_ptr<dom::ShArr<int16_t, int>>);
    ADD(2, std::unique_ptr<std::set<std::string>>);
    ADD(2, std::unique_ptr<std::multiset<std::string>>);
    ADD(2, std::unique_ptr<std::unordered_set<std::string>>);
    ADD(2, std::unique_ptr<std::unordered_multiset<std::string>>);
}

#include "ser_types.h"
void kinds2()
{
    ADD(2, std::vector<std::vector<int16_t>>);
    ADD(2, std::vector<std::deque<std::string>>);
    ADD(2, std::vector<std::list<std::string>>);
    ADD(2, std::vector<std::forward_list<std::string>>);
    ADD(2, std::vector<std::map<int16_t, std::string>>);
    ADD(2, std::vector<std::map<std::string, int16_t>>);
    ADD(2, std::vector<std::multimap<int16_t, int16_t>>);
    ADD(2, std::vector<std::unordered_map<std::string, int16_t>>);
    ADD(2, std::vector<std::unordered_multimap<int16_t, std::string>>);
    ADD(2, std::vector<std::stack<std::string>>);
    ADD(2, std::vector<std::queue<int16_t>>);
    ADD(2, std::vector<std::pair<std::string, std::string>>);
    ADD(2, std::vector<std::pair<int8_t, std::string>>);
    ADD(2, std::vector<std::tuple<std::string, int8_t, std::string>>);
    ADD(2, std::vector<std::array<int16_t, 3>>);
    ADD(2, std::vector<dom::Agg<int16_t>>);
    ADD(2, std::vector<dom::Cls<std::string>>);
    ADD(2, std::vector<dom::CArr<std::string>>);
    ADD(2, std::vector<std::optional<int16_t>>);
    ADD(2, std::vector<std::variant<int8_t, int16_t, std::list<int16_t>>>);
    ADD(2, std::vector<std::unique_ptr<int16_t>>);
    ADD(2, std::vector<std::shared_ptr<int16_t>>);
    ADD(2, std::vector<std::string*>);
    ADD(2, std::vector<dom::DynArr<int16_t, size_t>>);
    ADD(2, std::vector<dom::UniArr<std::string, uint16_t>>);
    ADD(2, std::vector<dom::ShArr<int16_t, int>>);
    ADD(2, std::vector<std::set<std::string>>);
    ADD(2, std::vector<std::multiset<std::string>>);
    ADD(2, std::vector<std::unordered_set<std::string>>);
    ADD(2, std::vector<std::unordered_multiset<std::string>>);
    ADD(2, std::multimap<int16_t, std::vector<int16_t>>);
    ADD(2, std::multimap<int16_t, std::deque<std::string>>);
    ADD(2, std::multimap<int16_t, std::list<std::string>>);
    ADD(2, std::multimap<int16_t, std::forward_list<std::string>>);
    ADD(2, std::multimap<int16_t, std::map<int16_t, std::string>>);
    ADD(2, std::multimap<int16_t, std::map<std::string, int16_t>>);
    ADD(2, std::multimap<int16_t, std::multimap<int16_t, int16_t>>);
    ADD(2, std::multimap<int16_t, std::unordered_map<std::string, int16_t>>);
    ADD(2, std::multimap<int16_t, std::unordered_multimap<int16_t, std::string>>);
    ADD(2, std::multimap<int16_t, std::stack<std::string>>);
    ADD(2, std::multimap<int16_t, std::queue<int16_t>>);
    ADD(2, std::multimap<int16_t, std::pair<std::string, std::string>>);
    ADD(2, std::multimap<int16_t, std::pair<int8_t, std::string>>);
    ADD(2, std::multimap<int16_t, std::tuple<std::string, int8_t, std::string>>);
    ADD(2, std::multimap<int16_t, std::array<int16_t, 3>>);
    ADD(2, std::multimap<int16_t, dom::Agg<int16_t>>);
    ADD(2, std::multimap<int16_t, dom::Cls<std::string>>);
    ADD(2, std::multimap<int16_t, dom::CArr<std::string>>);
    ADD(2, std::multimap<int16_t, std::optional<int16_t>>);
    ADD(2, std::multimap<int16_t, std::variant<int8_t, int16_t, std::list<int16_t>>>);
    ADD(2, std::multimap<int16_t, std::unique_ptr<int16_t>>);
    ADD(2, std::multimap<int16_t, std::shared_ptr<int16_t>>);
    ADD(2, std::multimap<int16_t, std::string*>);
    ADD(2, std::multimap<int16_t, dom::DynArr<int16_t, size_t>>);
    ADD(2, std::multimap<int16_t, dom::UniArr<std::string, uint16_t>>);
    ADD(2, std::multimap<int16_t, dom::ShArr<int16_t, int>>);
    ADD(2, std::multimap<int16_t, std::set<std::string>>);
    ADD(2, std::multimap<int16_t, std::multiset<std::string>>);
    ADD(2, std::multimap<int16_t, std::unordered_set<std::string>>);
    ADD(2, std::multimap<int16_t, std::unordered_multiset<std::string>>);
    ADD(2, std::pair<int8_t, std::vector<std::string>>);
    ADD(2, std::pair<int8_t, std::deque<int16_t>>);
    ADD(2, std::pair<int8_t, std::list<int16_t>>);
    ADD(2, std::pair<int8_t, std::forward_list<int16_t>>);
    ADD(2, std::pair<int8_t, std::map<int16_t, int16_t>>);
    ADD(2, std::pair<int8_t, std::map<std::string, std::string>>);
    ADD(2, std::pair<int8_t, std::multimap<int16_t, std::string>>);
    ADD(2, std::pair<int8_t, std::unordered_map<std::string, std::string>>);
    ADD(2, std::pair<int8_t, std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, std::pair<int8_t, std::stack<int16_t>>);
    ADD(2, std::pair<int8_t, std::queue<std::string>>);
    ADD(2, std::pair<int8_t, std::pair<int16_t, std::string>>);
    ADD(2, std::pair<int8_t, std::pair<int8_t, int16_t>>);
    ADD(2, std::pair<int8_t, std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, std::pair<int8_t, std::array<std::string, 3>>);
    ADD(2, std::pair<int8_t, dom::Agg<std::string>>);
    ADD(2, std::pair<int8_t, dom::Cls<int16_t>>);
    ADD(2, std::pair<int8_t, dom::CArr<int16_t>>);
    ADD(2, std::pair<int8_t, std::optional<std::string>>);
    ADD(2, std::pair<int8_t, std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, std::pair<int8_t, std::unique_ptr<std::string>>);
    ADD(2, std::pair<int8_t, std::shared_ptr<std::string>>);
    ADD(2, std::pair<int8_t, int16_t*>);
    ADD(2, std::pair<int8_t, dom::DynArr<std::string, size_t>>);
    ADD(2, std::pair<int8_t, dom::UniArr<int16_t, uint16_t>>);
    ADD(2, std::pair<int8_t, dom::ShArr<std::string, int>>);
    ADD(2, std::pair<int8_t, std::set<std::string>>);
    ADD(2, std::pair<int8_t, std::multiset<std::string>>);
    ADD(2, std::pair<int8_t, std::unordered_set<std::string>>);
    ADD(2, std::pair<int8_t, std::unordered_multiset<std::string>>);
    ADD(2, std::optional<std::vector<int16_t>>);
    ADD(2, std::optional<std::deque<std::string>>);
    ADD(2, std::optional<std::list<std::string>>);
    ADD(2, std::optional<std::forward_list<std::string>>);
    ADD(2, std::optional<std::map<int16_t, std::string>>);
    ADD(2, std::optional<std::map<std::string, int16_t>>);
    ADD(2, std::optional<std::multimap<int16_t, int16_t>>);
    ADD(2, std::optional<std::unordered_map<std::string, int16_t>>);
    ADD(2, std::optional<std::unordered_multimap<int16_t, std::string>>);
    ADD(2, std::optional<std::stack<std::string>>);
    ADD(2, std::optional<std::queue<int16_t>>);
    ADD(2, std::optional<std::pair<std::string, std::string>>);
    ADD(2, std::optional<std::pair<int8_t, std::string>>);
    ADD(2, std::optional<std::tuple<std::string, int8_t, std::string>>);
    ADD(2, std::optional<std::array<int16_t, 3>>);
    ADD(2, std::optional<dom::Agg<int16_t>>);
    ADD(2, std::optional<dom::Cls<std::string>>);
    ADD(2, std::optional<dom::CArr<std::string>>);
    ADD(2, std::optional<std::optional<int16_t>>);
    ADD(2, std::optional<std::variant<int8_t, int16_t, std::list<int16_t>>>);
    ADD(2, std::optional<std::unique_ptr<int16_t>>);
    ADD(2, std::optional<std::shared_ptr<int16_t>>);
    ADD(2, std::optional<std::string*>);
    ADD(2, std::optional<dom::DynArr<int16_t, size_t>>);
    ADD(2, std::optional<dom::UniArr<std::string, uint16_t>>);
    ADD(2, std::optional<dom::ShArr<int16_t, int>>);
    ADD(2, std::optional<std::set<std::string>>);
    ADD(2, std::optional<std::multiset<std::string>>);
    ADD(2, std::optional<std::unordered_set<std::string>>);
    ADD(2, std::optional<std::unordered_multiset<std::string>>);
    ADD(2, dom::UniArr<std::vector<std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::deque<int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::list<int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::forward_list<int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::map<int16_t, int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::map<std::string, std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::multimap<int16_t, std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::unordered_map<std::string, std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::unordered_multimap<int16_t, int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::stack<int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::queue<std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::pair<int16_t, std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::pair<int8_t, int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::tuple<int16_t, int8_t, int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::array<std::string, 3>, uint16_t>);
    ADD(2, dom::UniArr<dom::Agg<std::string>, uint16_t>);
    ADD(2, dom::UniArr<dom::Cls<int16_t>, uint16_t>);
    ADD(2, dom::UniArr<dom::CArr<int16_t>, uint16_t>);
    ADD(2, dom::UniArr<std::optional<std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::variant<int8_t, std::string, std::list<std::string>>, uint16_t>);
    ADD(2, dom::UniArr<std::unique_ptr<std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::shared_ptr<std::string>, uint16_t>);
    ADD(2, dom::UniArr<int16_t*, uint16_t>);
    ADD(2, dom::UniArr<dom::DynArr<std::string, size_t>, uint16_t>);
    ADD(2, dom::UniArr<dom::UniArr<int16_t, uint16_t>, uint16_t>);
    ADD(2, dom::UniArr<dom::ShArr<std::string, int>, uint16_t>);
    ADD(2, dom::UniArr<std::set<std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::multiset<std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::unordered_set<std::string>, uint16_t>);
    ADD(2, dom::UniArr<std::unordered_multiset<std::string>, uint16_t>);
}

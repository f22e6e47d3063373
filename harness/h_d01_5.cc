#include "ser_types.h"
void kinds5()
{
    ADD(2, std::forward_list<std::vector<std::string>>);
    ADD(2, std::forward_list<std::deque<int16_t>>);
    ADD(2, std::forward_list<std::list<int16_t>>);
    ADD(2, std::forward_list<std::forward_list<int16_t>>);
    ADD(2, std::forward_list<std::map<int16_t, int16_t>>);
    ADD(2, std::forward_list<std::map<std::string, std::string>>);
    ADD(2, std::forward_list<std::multimap<int16_t, std::string>>);
    ADD(2, std::forward_list<std::unordered_map<std::string, std::string>>);
    ADD(2, std::forward_list<std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, std::forward_list<std::stack<int16_t>>);
    ADD(2, std::forward_list<std::queue<std::string>>);
    ADD(2, std::forward_list<std::pair<int16_t, std::string>>);
    ADD(2, std::forward_list<std::pair<int8_t, int16_t>>);
    ADD(2, std::forward_list<std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, std::forward_list<std::array<std::string, 3>>);
    ADD(2, std::forward_list<dom::Agg<std::string>>);
    ADD(2, std::forward_list<dom::Cls<int16_t>>);
    ADD(2, std::forward_list<dom::CArr<int16_t>>);
    ADD(2, std::forward_list<std::optional<std::string>>);
    ADD(2, std::forward_list<std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, std::forward_list<std::unique_ptr<std::string>>);
    ADD(2, std::forward_list<std::shared_ptr<std::string>>);
    ADD(2, std::forward_list<int16_t*>);
    ADD(2, std::forward_list<dom::DynArr<std::string, size_t>>);
    ADD(2, std::forward_list<dom::UniArr<int16_t, uint16_t>>);
    ADD(2, std::forward_list<dom::ShArr<std::string, int>>);
    ADD(2, std::forward_list<std::set<std::string>>);
    ADD(2, std::forward_list<std::multiset<std::string>>);
    ADD(2, std::forward_list<std::unordered_set<std::string>>);
    ADD(2, std::forward_list<std::unordered_multiset<std::string>>);
    ADD(2, std::stack<std::vector<std::string>>);
    ADD(2, std::stack<std::deque<int16_t>>);
    ADD(2, std::stack<std::list<int16_t>>);
    ADD(2, std::stack<std::forward_list<int16_t>>);
    ADD(2, std::stack<std::map<int16_t, int16_t>>);
    ADD(2, std::stack<std::map<std::string, std::string>>);
    ADD(2, std::stack<std::multimap<int16_t, std::string>>);
    ADD(2, std::stack<std::unordered_map<std::string, std::string>>);
    ADD(2, std::stack<std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, std::stack<std::stack<int16_t>>);
    ADD(2, std::stack<std::queue<std::string>>);
    ADD(2, std::stack<std::pair<int16_t, std::string>>);
    ADD(2, std::stack<std::pair<int8_t, int16_t>>);
    ADD(2, std::stack<std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, std::stack<std::array<std::string, 3>>);
    ADD(2, std::stack<dom::Agg<std::string>>);
    ADD(2, std::stack<dom::Cls<int16_t>>);
    ADD(2, std::stack<dom::CArr<int16_t>>);
    ADD(2, std::stack<std::optional<std::string>>);
    ADD(2, std::stack<std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, std::stack<std::unique_ptr<std::string>>);
    ADD(2, std::stack<std::shared_ptr<std::string>>);
    ADD(2, std::stack<int16_t*>);
    ADD(2, std::stack<dom::DynArr<std::string, size_t>>);
    ADD(2, std::stack<dom::UniArr<int16_t, uint16_t>>);
    ADD(2, std::stack<dom::ShArr<std::string, int>>);
    ADD(2, std::stack<std::set<std::string>>);
    ADD(2, std::stack<std::multiset<std::string>>);
    ADD(2, std::stack<std::unordered_set<std::string>>);
    ADD(2, std::stack<std::unordered_multiset<std::string>>);
    ADD(2, dom::Agg<std::vector<int16_t>>);
    ADD(2, dom::Agg<std::deque<std::string>>);
    ADD(2, dom::Agg<std::list<std::string>>);
    ADD(2, dom::Agg<std::forward_list<std::string>>);
    ADD(2, dom::Agg<std::map<int16_t, std::string>>);
    ADD(2, dom::Agg<std::map<std::string, int16_t>>);
    ADD(2, dom::Agg<std::multimap<int16_t, int16_t>>);
    ADD(2, dom::Agg<std::unordered_map<std::string, int16_t>>);
    ADD(2, dom::Agg<std::unordered_multimap<int16_t, std::string>>);
    ADD(2, dom::Agg<std::stack<std::string>>);
    ADD(2, dom::Agg<std::queue<int16_t>>);
    ADD(2, dom::Agg<std::pair<std::string, std::string>>);
    ADD(2, dom::Agg<std::pair<int8_t, std::string>>);
    ADD(2, dom::Agg<std::tuple<std::string, int8_t, std::string>>);
    ADD(2, dom::Agg<std::array<int16_t, 3>>);
    ADD(2, dom::Agg<dom::Agg<int16_t>>);
    ADD(2, dom::Agg<dom::Cls<std::string>>);
    ADD(2, dom::Agg<dom::CArr<std::string>>);
    ADD(2, dom::Agg<std::optional<int16_t>>);
    ADD(2, dom::Agg<std::variant<int8_t, int16_t, std::list<int16_t>>>);
    ADD(2, dom::Agg<std::unique_ptr<int16_t>>);
    ADD(2, dom::Agg<std::shared_ptr<int16_t>>);
    ADD(2, dom::Agg<std::string*>);
    ADD(2, dom::Agg<dom::DynArr<int16_t, size_t>>);
    ADD(2, dom::Agg<dom::UniArr<std::string, uint16_t>>);
    ADD(2, dom::Agg<dom::ShArr<int16_t, int>>);
    ADD(2, dom::Agg<std::set<std::string>>);
    ADD(2, dom::Agg<std::multiset<std::string>>);
    ADD(2, dom::Agg<std::unordered_set<std::string>>);
    ADD(2, dom::Agg<std::unordered_multiset<std::string>>);
    ADD(2, std::shared_ptr<std::vector<int16_t>>);
    ADD(2, std::shared_ptr<std::deque<std::string>>);
    ADD(2, std::shared_ptr<std::list<std::string>>);
    ADD(2, std::shared_ptr<std::forward_list<std::string>>);
    ADD(2, std::shared_ptr<std::map<int16_t, std::string>>);
    ADD(2, std::shared_ptr<std::map<std::string, int16_t>>);
    ADD(2, std::shared_ptr<std::multimap<int16_t, int16_t>>);
    ADD(2, std::shared_ptr<std::unordered_map<std::string, int16_t>>);
    ADD(2, std::shared_ptr<std::unordered_multimap<int16_t, std::string>>);
    ADD(2, std::shared_ptr<std::stack<std::string>>);
    ADD(2, std::shared_ptr<std::queue<int16_t>>);
    ADD(2, std::shared_ptr<std::pair<std::string, std::string>>);
    ADD(2, std::shared_ptr<std::pair<int8_t, std::string>>);
    ADD(2, std::shared_ptr<std::tuple<std::string, int8_t, std::string>>);
    ADD(2, std::shared_ptr<std::array<int16_t, 3>>);
    ADD(2, std::shared_ptr<dom::Agg<int16_t>>);
    ADD(2, std::shared_ptr<dom::Cls<std::string>>);
    ADD(2, std::shared_ptr<dom::CArr<std::string>>);
    ADD(2, std::shared_ptr<std::optional<int16_t>>);
    ADD(2, std::shared_ptr<std::variant<int8_t, int16_t, std::list<int16_t>>>);
    ADD(2, std::shared_ptr<std::unique_ptr<int16_t>>);
    ADD(2, std::shared_ptr<std::shared_ptr<int16_t>>);
    ADD(2, std::shared_ptr<std::string*>);
    ADD(2, std::shared_ptr<dom::DynArr<int16_t, size_t>>);
    ADD(2, std::shared_ptr<dom::UniArr<std::string, uint16_t>>);
    ADD(2, std::shared_ptr<dom::ShArr<int16_t, int>>);
    ADD(2, std::shared_ptr<std::set<std::string>>);
    ADD(2, std::shared_ptr<std::multiset<std::string>>);
    ADD(2, std::shared_ptr<std::unordered_set<std::string>>);
    ADD(2, std::shared_ptr<std::unordered_multiset<std::string>>);
}

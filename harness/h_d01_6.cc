#include "ser_types.h"
void kinds6()
{
    ADD(2, std::map<int16_t, std::vector<std::string>>);
    ADD(2, std::map<int16_t, std::deque<int16_t>>);
    ADD(2, std::map<int16_t, std::list<int16_t>>);
    ADD(2, std::map<int16_t, std::forward_list<int16_t>>);
    ADD(2, std::map<int16_t, std::map<int16_t, int16_t>>);
    ADD(2, std::map<int16_t, std::map<std::string, std::string>>);
    ADD(2, std::map<int16_t, std::multimap<int16_t, std::string>>);
    ADD(2, std::map<int16_t, std::unordered_map<std::string, std::string>>);
    ADD(2, std::map<int16_t, std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, std::map<int16_t, std::stack<int16_t>>);
    ADD(2, std::map<int16_t, std::queue<std::string>>);
    ADD(2, std::map<int16_t, std::pair<int16_t, std::string>>);
    ADD(2, std::map<int16_t, std::pair<int8_t, int16_t>>);
    ADD(2, std::map<int16_t, std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, std::map<int16_t, std::array<std::string, 3>>);
    ADD(2, std::map<int16_t, dom::Agg<std::string>>);
    ADD(2, std::map<int16_t, dom::Cls<int16_t>>);
    ADD(2, std::map<int16_t, dom::CArr<int16_t>>);
    ADD(2, std::map<int16_t, std::optional<std::string>>);
    ADD(2, std::map<int16_t, std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, std::map<int16_t, std::unique_ptr<std::string>>);
    ADD(2, std::map<int16_t, std::shared_ptr<std::string>>);
    ADD(2, std::map<int16_t, int16_t*>);
    ADD(2, std::map<int16_t, dom::DynArr<std::string, size_t>>);
    ADD(2, std::map<int16_t, dom::UniArr<int16_t, uint16_t>>);
    ADD(2, std::map<int16_t, dom::ShArr<std::string, int>>);
    ADD(2, std::map<int16_t, std::set<std::string>>);
    ADD(2, std::map<int16_t, std::multiset<std::string>>);
    ADD(2, std::map<int16_t, std::unordered_set<std::string>>);
    ADD(2, std::map<int16_t, std::unordered_multiset<std::string>>);
    ADD(2, std::queue<std::vector<int16_t>>);
    ADD(2, std::queue<std::deque<std::string>>);
    ADD(2, std::queue<std::list<std::string>>);
    ADD(2, std::queue<std::forward_list<std::string>>);
    ADD(2, std::queue<std::map<int16_t, std::string>>);
    ADD(2, std::queue<std::map<std::string, int16_t>>);
    ADD(2, std::queue<std::multimap<int16_t, int16_t>>);
    ADD(2, std::queue<std::unordered_map<std::string, int16_t>>);
    ADD(2, std::queue<std::unordered_multimap<int16_t, std::string>>);
    ADD(2, std::queue<std::stack<std::string>>);
    ADD(2, std::queue<std::queue<int16_t>>);
    ADD(2, std::queue<std::pair<std::string, std::string>>);
    ADD(2, std::queue<std::pair<int8_t, std::string>>);
    ADD(2, std::queue<std::tuple<std::string, int8_t, std::string>>);
    ADD(2, std::queue<std::array<int16_t, 3>>);
    ADD(2, std::queue<dom::Agg<int16_t>>);
    ADD(2, std::queue<dom::Cls<std::string>>);
    ADD(2, std::queue<dom::CArr<std::string>>);
    ADD(2, std::queue<std::optional<int16_t>>);
    ADD(2, std::queue<std::variant<int8_t, int16_t, std::list<int16_t>>>);
    ADD(2, std::queue<std::unique_ptr<int16_t>>);
    ADD(2, std::queue<std::shared_ptr<int16_t>>);
    ADD(2, std::queue<std::string*>);
    ADD(2, std::queue<dom::DynArr<int16_t, size_t>>);
    ADD(2, std::queue<dom::UniArr<std::string, uint16_t>>);
    ADD(2, std::queue<dom::ShArr<int16_t, int>>);
    ADD(2, std::queue<std::set<std::string>>);
    ADD(2, std::queue<std::multiset<std::string>>);
    ADD(2, std::queue<std::unordered_set<std::string>>);
    ADD(2, std::queue<std::unordered_multiset<std::string>>);
    ADD(2, dom::Cls<std::vector<std::string>>);
    ADD(2, dom::Cls<std::deque<int16_t>>);
    ADD(2, dom::Cls<std::list<int16_t>>);
    ADD(2, dom::Cls<std::forward_list<int16_t>>);
    ADD(2, dom::Cls<std::map<int16_t, int16_t>>);
    ADD(2, dom::Cls<std::map<std::string, std::string>>);
    ADD(2, dom::Cls<std::multimap<int16_t, std::string>>);
    ADD(2, dom::Cls<std::unordered_map<std::string, std::string>>);
    ADD(2, dom::Cls<std::unordered_multimap<int16_t, int16_t>>);
    ADD(2, dom::Cls<std::stack<int16_t>>);
    ADD(2, dom::Cls<std::queue<std::string>>);
    ADD(2, dom::Cls<std::pair<int16_t, std::string>>);
    ADD(2, dom::Cls<std::pair<int8_t, int16_t>>);
    ADD(2, dom::Cls<std::tuple<int16_t, int8_t, int16_t>>);
    ADD(2, dom::Cls<std::array<std::string, 3>>);
    ADD(2, dom::Cls<dom::Agg<std::string>>);
    ADD(2, dom::Cls<dom::Cls<int16_t>>);
    ADD(2, dom::Cls<dom::CArr<int16_t>>);
    ADD(2, dom::Cls<std::optional<std::string>>);
    ADD(2, dom::Cls<std::variant<int8_t, std::string, std::list<std::string>>>);
    ADD(2, dom::Cls<std::unique_ptr<std::string>>);
    ADD(2, dom::Cls<std::shared_ptr<std::string>>);
    ADD(2, dom::Cls<int16_t*>);
    ADD(2, dom::Cls<dom::DynArr<std::string, size_t>>);
    ADD(2, dom::Cls<dom::UniArr<int16_t, uint16_t>>);
    ADD(2, dom::Cls<dom::ShArr<std::string, int>>);
    ADD(2, dom::Cls<std::set<std::string>>);
    ADD(2, dom::Cls<std::multiset<std::string>>);
    ADD(2, dom::Cls<std::unordered_set<std::string>>);
    ADD(2, dom::Cls<std::unordered_multiset<std::string>>);
    ADD(2, std::vector<std::string>*);
    ADD(2, std::deque<int16_t>*);
    ADD(2, std::list<int16_t>*);
    ADD(2, std::forward_list<int16_t>*);
    ADD(2, std::map<int16_t, int16_t>*);
    ADD(2, std::map<std::string, std::string>*);
    ADD(2, std::multimap<int16_t, std::string>*);
    ADD(2, std::unordered_map<std::string, std::string>*);
    ADD(2, std::unordered_multimap<int16_t, int16_t>*);
    ADD(2, std::stack<int16_t>*);
    ADD(2, std::queue<std::string>*);
    ADD(2, std::pair<int16_t, std::string>*);
    ADD(2, std::pair<int8_t, int16_t>*);
    ADD(2, std::tuple<int16_t, int8_t, int16_t>*);
    ADD(2, std::array<std::string, 3>*);
    ADD(2, dom::Cls<int16_t>*);
    ADD(2, dom::CArr<int16_t>*);
    ADD(2, dom::DynArr<std::string, size_t>*);
    ADD(2, dom::UniArr<int16_t, uint16_t>*);
    ADD(2, dom::ShArr<std::string, int>*);
    ADD(2, std::set<std::string>*);
    ADD(2, std::multiset<std::string>*);
    ADD(2, std::unordered_set<std::string>*);
    ADD(2, std::unordered_multiset<std::string>*);
}

#include "ser_types.h"
void kinds0()
{
    ADD(0, bool);
    ADD(0, char);
    ADD(0, int8_t);
    ADD(0, uint8_t);
    ADD(0, int16_t);
    ADD(0, uint16_t);
    ADD(0, int32_t);
    ADD(0, uint32_t);
    ADD(0, int64_t);
    ADD(0, uint64_t);
    ADD(0, float);
    ADD(0, double);
    ADD(0, long double);
    ADD(0, std::string);
    ADD(0, dom::Plain);
    ADD(0, dom::Scoped);
    ADD(0, std::complex<float>);
    ADD(0, std::complex<double>);
    ADD(0, std::bitset<1>);
    ADD(0, std::bitset<64>);
    ADD(0, std::bitset<65>);
    ADD(0, dom::Triv);
    ADD(0, int dom::Off::*);
    ADD(0, dom::Buf);
    ADD(0, dom::RawP);
    ADD(0, dom::Base*);
    ADD(0, std::vector<bool>);
    ADD(1, std::vector<int16_t>);
    ADD(1, std::deque<int16_t>);
    ADD(1, std::list<int16_t>);
    ADD(1, std::forward_list<int16_t>);
    ADD(1, std::map<int16_t, int16_t>);
    ADD(1, std::map<std::string, int16_t>);
    ADD(1, std::multimap<int16_t, int16_t>);
    ADD(1, std::unordered_map<std::string, int16_t>);
    ADD(1, std::unordered_multimap<int16_t, int16_t>);
    ADD(1, std::stack<int16_t>);
    ADD(1, std::queue<int16_t>);
    ADD(1, std::pair<int16_t, std::string>);
    ADD(1, std::pair<int8_t, int16_t>);
    ADD(1, std::tuple<int16_t, int8_t, int16_t>);
    ADD(1, std::array<int16_t, 3>);
    ADD(1, dom::Agg<int16_t>);
    ADD(1, dom::Cls<int16_t>);
    ADD(1, dom::CArr<int16_t>);
    ADD(1, std::optional<int16_t>);
    ADD(1, std::variant<int8_t, int16_t, std::list<int16_t>>);
    ADD(1, std::unique_ptr<int16_t>);
    ADD(1, std::shared_ptr<int16_t>);
    ADD(1, int16_t*);
    ADD(1, dom::DynArr<int16_t, size_t>);
    ADD(1, dom::UniArr<int16_t, uint16_t>);
    ADD(1, dom::ShArr<int16_t, int>);
    ADD(1, std::set<int16_t>);
    ADD(1, std::multiset<int16_t>);
    ADD(1, std::unordered_set<int16_t>);
    ADD(1, std::unordered_multiset<int16_t>);
    ADD(1, std::priority_queue<int16_t>);
    ADD(1, std::vector<std::string>);
    ADD(1, std::deque<std::string>);
    ADD(1, std::list<std::string>);
    ADD(1, std::forward_list<std::string>);
    ADD(1, std::map<int16_t, std::string>);
    ADD(1, std::map<std::string, std::string>);
    ADD(1, std::multimap<int16_t, std::string>);
    ADD(1, std::unordered_map<std::string, std::string>);
    ADD(1, std::unordered_multimap<int16_t, std::string>);
    ADD(1, std::stack<std::string>);
    ADD(1, std::queue<std::string>);
    ADD(1, std::pair<std::string, std::string>);
    ADD(1, std::pair<int8_t, std::string>);
    ADD(1, std::tuple<std::string, int8_t, std::string>);
    ADD(1, std::array<std::string, 3>);
    ADD(1, dom::Agg<std::string>);
    ADD(1, dom::Cls<std::string>);
    ADD(1, dom::CArr<std::string>);
    ADD(1, std::optional<std::string>);
    ADD(1, std::variant<int8_t, std::string, std::list<std::string>>);
    ADD(1, std::unique_ptr<std::string>);
    ADD(1, std::shared_ptr<std::string>);
    ADD(1, std::string*);
    ADD(1, dom::DynArr<std::string, size_t>);
    ADD(1, dom::UniArr<std::string, uint16_t>);
    ADD(1, dom::ShArr<std::string, int>);
    ADD(1, std::set<std::string>);
    ADD(1, std::multiset<std::string>);
    ADD(1, std::unordered_set<std::string>);
    ADD(1, std::unordered_multiset<std::string>);
    ADD(1, std::priority_queue<std::string>);
}

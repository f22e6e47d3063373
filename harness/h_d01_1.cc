#include "ser_types.h"
void kinds1()
{
    ADD(1, std::vector<double>);
    ADD(1, std::array<double, 3>);
    ADD(1, std::optional<double>);
    ADD(1, std::unique_ptr<double>);
    ADD(1, std::shared_ptr<double>);
    ADD(1, double*);
    ADD(1, dom::DynArr<double, size_t>);
    ADD(1, dom::CArr<double>);
    ADD(1, std::variant<int8_t, double, std::list<double>>);
    ADD(1, std::pair<double, std::string>);
    ADD(1, std::map<int16_t, double>);
    ADD(1, std::vector<dom::Triv>);
    ADD(1, std::array<dom::Triv, 3>);
    ADD(1, std::optional<dom::Triv>);
    ADD(1, std::unique_ptr<dom::Triv>);
    ADD(1, std::shared_ptr<dom::Triv>);
    ADD(1, dom::Triv*);
    ADD(1, dom::DynArr<dom::Triv, size_t>);
    ADD(1, dom::CArr<dom::Triv>);
    ADD(1, std::variant<int8_t, dom::Triv, std::list<dom::Triv>>);
    ADD(1, std::pair<dom::Triv, std::string>);
    ADD(1, std::map<int16_t, dom::Triv>);
    ADD(1, std::vector<dom::Scoped>);
    ADD(1, std::array<dom::Scoped, 3>);
    ADD(1, std::optional<dom::Scoped>);
    ADD(1, std::unique_ptr<dom::Scoped>);
    ADD(1, std::shared_ptr<dom::Scoped>);
    ADD(1, dom::Scoped*);
    ADD(1, dom::DynArr<dom::Scoped, size_t>);
    ADD(1, dom::CArr<dom::Scoped>);
    ADD(1, std::variant<int8_t, dom::Scoped, std::list<dom::Scoped>>);
    ADD(1, std::pair<dom::Scoped, std::string>);
    ADD(1, std::map<int16_t, dom::Scoped>);
    ADD(1, std::vector<std::bitset<65>>);
    ADD(1, std::array<std::bitset<65>, 3>);
    ADD(1, std::optional<std::bitset<65>>);
    ADD(1, std::unique_ptr<std::bitset<65>>);
    ADD(1, std::shared_ptr<std::bitset<65>>);
    ADD(1, std::bitset<65>*);
    ADD(1, dom::DynArr<std::bitset<65>, size_t>);
    ADD(1, dom::CArr<std::bitset<65>>);
    ADD(1, std::variant<int8_t, std::bitset<65>, std::list<std::bitset<65>>>);
    ADD(1, std::pair<std::bitset<65>, std::string>);
    ADD(1, std::map<int16_t, std::bitset<65>>);
    ADD(1, std::vector<bool>);
    ADD(1, std::array<bool, 3>);
    ADD(1, std::optional<bool>);
    ADD(1, std::unique_ptr<bool>);
    ADD(1, std::shared_ptr<bool>);
    ADD(1, bool*);
    ADD(1, dom::DynArr<bool, size_t>);
    ADD(1, dom::CArr<bool>);
    ADD(1, std::variant<int8_t, bool, std::list<bool>>);
    ADD(1, std::pair<bool, std::string>);
    ADD(1, std::map<int16_t, bool>);
    ADD(1, std::vector<dom::Base*>);
    ADD(1, std::array<dom::Base*, 3>);
    ADD(1, std::optional<dom::Base*>);
    ADD(1, std::shared_ptr<dom::Base*>);
    ADD(1, dom::DynArr<dom::Base*, size_t>);
    ADD(1, dom::CArr<dom::Base*>);
    ADD(1, std::variant<int8_t, dom::Base*, std::list<dom::Base*>>);
    ADD(1, std::pair<dom::Base*, std::string>);
    ADD(1, std::map<int16_t, dom::Base*>);
    ADD(1, std::vector<std::complex<double>>);
    ADD(1, std::array<std::complex<double>, 3>);
    ADD(1, std::optional<std::complex<double>>);
    ADD(1, std::unique_ptr<std::complex<double>>);
    ADD(1, std::shared_ptr<std::complex<double>>);
    ADD(1, std::complex<double>*);
    ADD(1, dom::DynArr<std::complex<double>, size_t>);
    ADD(1, dom::CArr<std::complex<double>>);
    ADD(1, std::variant<int8_t, std::complex<double>, std::list<std::complex<double>>>);
    ADD(1, std::pair<std::complex<double>, std::string>);
    ADD(1, std::map<int16_t, std::complex<double>>);
    ADD(1, std::atomic<int16_t>);
    ADD(1, std::valarray<int16_t>);
    ADD(1, std::atomic<uint64_t>);
    ADD(1, std::valarray<uint64_t>);
    ADD(1, std::atomic<double>);
    ADD(1, std::valarray<double>);
    ADD(1, std::atomic<bool>);
    ADD(1, dom::DynArr<int32_t, uint8_t>);
    ADD(1, dom::DynArr<std::string, uint8_t>);
    ADD(1, dom::UniArr<int32_t, uint8_t>);
    ADD(1, dom::UniArr<std::string, uint8_t>);
    ADD(1, dom::ShArr<int32_t, uint8_t>);
    ADD(1, dom::ShArr<std::string, uint8_t>);
    ADD(1, dom::DynArr<int32_t, int64_t>);
    ADD(1, dom::DynArr<std::string, int64_t>);
    ADD(1, dom::UniArr<int32_t, int64_t>);
    ADD(1, dom::UniArr<std::string, int64_t>);
    ADD(1, dom::ShArr<int32_t, int64_t>);
    ADD(1, dom::ShArr<std::string, int64_t>);
    ADD(1, dom::DynArr<int32_t, unsigned>);
    ADD(1, dom::DynArr<std::string, unsigned>);
    ADD(1, dom::UniArr<int32_t, unsigned>);
    ADD(1, dom::UniArr<std::string, unsigned>);
    ADD(1, dom::ShArr<int32_t, unsigned>);
    ADD(1, dom::ShArr<std::string, unsigned>);
    ADD(1, std::set<std::pair<int16_t, std::string>>);
    ADD(1, std::map<std::pair<int16_t, std::string>, std::string>);
    ADD(1, std::map<std::set<int16_t>, int8_t>);
    ADD(1, std::set<std::vector<std::string>>);
    ADD(1, std::map<dom::Scoped, std::string>);
    ADD(1, std::multimap<std::string, std::string>);
    ADD(1, std::unordered_multimap<std::string, std::string>);
}

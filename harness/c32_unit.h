// What the translation units of C32's program share: the types which travel between them and the operations each of them offers.
#pragma once

#include "vh.hpp"

#include <utki/debug.hpp>
#include <utki/deserializer.hpp>
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/exception.hpp>
#include <utki/flags.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/singleton.hpp>
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/time.hpp>
#include <utki/tree.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/utility.hpp>
#include <utki/version.hpp>

namespace c32 {

enum class color {
	red,
	green,
	blue,
	enum_size
};

struct base {
	int value;
	explicit base(int v) :
		value(v)
	{}
	virtual ~base() = default;
	virtual int twice() const { return this->value * 2; }
};
struct derived : public base {
	using base::base;
	int twice() const override { return this->value * 3; }
};

class service : public utki::singleton<service>
{
public:
	int value;
	explicit service(int v) :
		value(v)
	{}
};

class root_service : public utki::intrusive_singleton<root_service, root_service>
{
	friend class utki::intrusive_singleton<root_service, root_service>;
	static instance_type instance; // defined in c32.cpp

public:
	int value;
	explicit root_service(int v) :
		value(v)
	{}
};

struct own_error : public utki::exception {
	std::string text;
	explicit own_error(std::string text) :
		text(std::move(text))
	{}
	const char* what() const noexcept override { return this->text.c_str(); }
};

// singletons whose objects live in static objects: global, function-local, owned by a static pointer, intrusive
template <int N>
class lasting : public utki::singleton<lasting<N>>
{
public:
	int value = 1000 + N;
	~lasting() { this->value = -1; }
};

class lasting_root : public utki::intrusive_singleton<lasting_root, lasting_root>
{
	friend class utki::intrusive_singleton<lasting_root, lasting_root>;
	static instance_type instance; // defined in c32.cpp

public:
	int value = 2000;
};

// everything which the operations work on; one operation may be run by one translation unit and the next one by another
struct world {
	std::string text;
	utki::string_parser parser;
	std::vector<uint8_t> bytes;
	utki::deserializer des;
	utki::utf8_iterator chars;
	utki::signal<int, const std::string&> sig;
	std::vector<utki::signal<int, const std::string&>::connection> connections;
	std::vector<std::string> heard;
	std::vector<utki::shared_ref<base>> refs;
	std::vector<utki::unique_ref<base>> owned;
	utki::flags<color> flags;
	utki::enum_array<int, color> per_color{};
	utki::tree<int> forest;
	std::unique_ptr<service> s;
	std::unique_ptr<root_service> rs;
	std::exception_ptr problem;
	std::vector<int> left;

	world(std::string t, std::vector<uint8_t> b) :
		text(std::move(t)),
		parser(this->text),
		bytes(std::move(b)),
		des(utki::make_span(this->bytes)),
		chars(std::string_view(this->text))
	{}
	~world()
	{
		for (auto c : this->connections) {
			this->sig.disconnect(c);
		}
	}
};

constexpr auto num_operations = 24;

struct unit {
	int number = 0;
	vh::u64 early[24] = {}; // digests of the workload, taken while static objects were initialised
	bool early_done = false;
	size_t (*num_items)() = nullptr;
	const char* (*item_name)(size_t) = nullptr;
	vh::u64 (*work)(size_t item, vh::u64 seed) = nullptr; // digest of the results
	std::vector<std::pair<std::string, size_t>> (*layouts)() = nullptr;
	std::vector<const void*> (*addresses)() = nullptr; // of objects of which the whole program has one
	void (*start)() = nullptr; // makes the singleton which is created in main() and destroyed after it
	std::string (*operation)(world& w, int op, int arg) = nullptr; // the result in words
};

std::vector<unit*>& units();
vh::u64 early_seed(size_t i);

} // namespace c32

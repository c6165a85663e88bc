// what one translation unit saw in utki/config.hpp (plain C++98, shared by the probes and c31.cpp)
#pragma once

struct c31_value {
	const char* name;
	long got;
	long expected; // any: not specified for this platform
};

struct c31_probe {
	const char* name;
	const c31_value* values;
	int num_values;
	long cplusplus; // the macro
	c31_probe* next;
};

const long c31_any = -12345; // not specified here
const long c31_real = -12346; // what the real machine is
const long c31_real_or_unknown = -12347;
const long c31_undefined = -1; // the macro is not defined

void c31_register(c31_probe* p);

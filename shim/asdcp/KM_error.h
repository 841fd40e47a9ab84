/* Part of a stand-in for asdcplib */

#ifndef VERIF_SHIM_KM_ERROR_H
#define VERIF_SHIM_KM_ERROR_H

namespace Kumu {

class Result_t
{
public:
	Result_t()
	{}

	explicit Result_t(int value, char const* label = "", int os_error = 0)
		: _value(value)
		, _label(label)
		, _os_error(os_error)
	{}

	int Value() const { return _value; }
	operator int() const { return _value; }
	char const* Label() const { return _label; }
	char const* Message() const { return _label; }
	int OsError() const { return _os_error; }
	bool Success() const { return _value >= 0; }
	bool Failure() const { return _value < 0; }

	bool operator==(Result_t const& other) const { return _value == other._value; }
	bool operator!=(Result_t const& other) const { return _value != other._value; }

	Result_t with_os_error(int e) const { return Result_t(_value, _label, e); }

private:
	int _value = 0;
	char const* _label = "";
	int _os_error = 0;
};

static Result_t const RESULT_FALSE(1, "false");
static Result_t const RESULT_OK(0, "ok");
static Result_t const RESULT_FAIL(-1, "fail");
static Result_t const RESULT_PTR(-2, "pointer");
static Result_t const RESULT_NULL_STR(-3, "null string");
static Result_t const RESULT_ALLOC(-4, "alloc");
static Result_t const RESULT_PARAM(-5, "param");
static Result_t const RESULT_NOTIMPL(-6, "not implemented");
static Result_t const RESULT_SMALLBUF(-7, "buffer too small");
static Result_t const RESULT_INIT(-8, "not initialised");
static Result_t const RESULT_NOT_FOUND(-9, "not found");
static Result_t const RESULT_NO_PERM(-10, "no permission");
static Result_t const RESULT_STATE(-11, "state");
static Result_t const RESULT_CONFIG(-12, "config");
static Result_t const RESULT_FILEOPEN(-13, "file open");
static Result_t const RESULT_BADSEEK(-14, "bad seek");
static Result_t const RESULT_READFAIL(-15, "read failed");
static Result_t const RESULT_WRITEFAIL(-16, "write failed");
static Result_t const RESULT_ENDOFFILE(-17, "end of file");

}

#define KM_SUCCESS(v) (((v) < 0) ? 0 : 1)
#define KM_FAILURE(v) (((v) < 0) ? 1 : 0)
#define ASDCP_SUCCESS(v) KM_SUCCESS(v)
#define ASDCP_FAILURE(v) KM_FAILURE(v)

#endif

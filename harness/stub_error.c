/* Stands in for core/error.c in harnesses whose property is not about error
 * messages: records the error code, discards the text.  In replays the real
 * error.c is linked instead. */
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <stddef.h>
typedef uint32_t cork_error;
static cork_error vp_error_code;
bool cork_error_occurred(void) { return vp_error_code != 0; }
cork_error cork_error_code(void) { return vp_error_code; }
const char *cork_error_message(void) { return "error"; }
void cork_error_clear(void) { vp_error_code = 0; }
void cork_error_set_printf(cork_error code, const char *f, ...) { vp_error_code = code; }
void cork_error_set_string(cork_error code, const char *s) { vp_error_code = code; }
void cork_error_set_vprintf(cork_error code, const char *f, va_list a) { vp_error_code = code; }
void cork_error_prefix_printf(const char *f, ...) { }
void cork_error_prefix_string(const char *s) { }
void cork_error_prefix_vprintf(const char *f, va_list a) { }
void cork_error_set(uint32_t c, unsigned int e, const char *f, ...) { vp_error_code = c + e; }
void cork_error_prefix(const char *f, ...) { }
void cork_system_error_set_explicit(int err) { vp_error_code = err; }
void cork_system_error_set(void) { vp_error_code = errno; }
void cork_unknown_error_set_(const char *l) { vp_error_code = 0x8cb0880dU; }

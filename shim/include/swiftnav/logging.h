#ifndef SHIM_SWIFTNAV_LOGGING_H
#define SHIM_SWIFTNAV_LOGGING_H
#include <swiftnav/common.h>
#include <syslog.h>
#ifdef __cplusplus
extern "C" {
#endif
void shim_log(int level, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void logging_set_implementation(void (*a)(int, const char *, ...), void (*b)(int, const char *, const char *, const int, const char *, ...));
#define log_emerg(...) shim_log(LOG_EMERG, __VA_ARGS__)
#define log_alert(...) shim_log(LOG_ALERT, __VA_ARGS__)
#define log_crit(...) shim_log(LOG_CRIT, __VA_ARGS__)
#define log_error(...) shim_log(LOG_ERR, __VA_ARGS__)
#define log_warn(...) shim_log(LOG_WARNING, __VA_ARGS__)
#define log_notice(...) shim_log(LOG_NOTICE, __VA_ARGS__)
#define log_info(...) shim_log(LOG_INFO, __VA_ARGS__)
#define log_debug(...) shim_log(LOG_DEBUG, __VA_ARGS__)
#ifndef LOG_WARN
#define LOG_WARN LOG_WARNING
#endif
#ifndef LOG_ERROR
#define LOG_ERROR LOG_ERR
#endif
#ifdef __cplusplus
}
#endif
#endif

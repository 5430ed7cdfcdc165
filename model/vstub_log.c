/* logging is switched off: no level is interesting, so no message is built */
#include <milter/core/milter-logger.h>
MilterLogger *milter_logger (void) { return NULL; }
MilterLogLevelFlags milter_logger_get_interesting_level (MilterLogger *l) { return 0; }
MilterLogLevelFlags milter_logger_get_target_level (MilterLogger *l) { return 0; }
MilterLogLevelFlags milter_logger_get_resolved_target_level (MilterLogger *l) { return 0; }
void milter_logger_log (MilterLogger *l, const gchar *d, MilterLogLevelFlags lv, const gchar *f, guint line, const gchar *fn, const gchar *fmt, ...) {}

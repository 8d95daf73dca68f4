# Contracts of core/internal/logging: level names, default and debug mode.
load "./core/internal/logging"
import logging "open-match.dev/core/internal/logging"
import logrus "github.com/sirupsen/logrus"

# the level a configured name stands for, the name in lower case
fun named(s string) logrus.Level =
  ite(s == "trace", logrus.TraceLevel, ite(s == "debug", logrus.DebugLevel,
  ite(s == "warn" || s == "warning", logrus.WarnLevel, ite(s == "error", logrus.ErrorLevel,
  ite(s == "fatal", logrus.FatalLevel, ite(s == "panic", logrus.PanicLevel, logrus.InfoLevel))))))
fun want(s string) logrus.Level = named(tolower(s))
# debug or more granular
fun verbose(l logrus.Level) bool = l == logrus.DebugLevel || l == logrus.TraceLevel

ghost log L { Level logrus.Level }
on call "github.com/sirupsen/logrus.SetLevel" (l)() { append L { Level: l } }

func "open-match.dev/core/internal/logging.toLevel" (level)(r) {
  safety C24
  ensures C24.level: r == want(level)
}
func "open-match.dev/core/internal/logging.isDebugLevel" (level)(r) {
  ensures C24.debug: r <==> verbose(level)
}
func "open-match.dev/core/internal/logging.IsDebugLevel" (level)(r) {
  ensures C24.debugname: r <==> verbose(want(level))
}
func "open-match.dev/core/internal/logging.IsDebugEnabled" (cfg)(r) {
  ensures C24.enabled: r <==> verbose(want(cfgstring(cfg, "OM_LOGGING_LEVEL")))
}
func "open-match.dev/core/internal/logging.ConfigureLogging" (cfg)() {
  safety C24
  ensures C24.configured: L.n > 0 && L.Level[L.n-1] == want(cfgstring(cfg, "OM_LOGGING_LEVEL"))
}

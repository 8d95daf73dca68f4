package logging

// Replay of the contracts of package logging on the real code.

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
)

var nfail = map[string]int{}

func fail(t *testing.T, key, f string, a ...interface{}) {
	nfail[key]++
	if nfail[key] <= 3 {
		fmt.Printf("VERIF-FAIL key=%s %s\n", key, fmt.Sprintf(f, a...))
	}
	t.Fail()
}

var names = map[string]logrus.Level{"trace": logrus.TraceLevel, "debug": logrus.DebugLevel, "info": logrus.InfoLevel, "warn": logrus.WarnLevel,
	"warning": logrus.WarnLevel, "error": logrus.ErrorLevel, "fatal": logrus.FatalLevel, "panic": logrus.PanicLevel}

func TestVerif_C24(t *testing.T) {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := rand.New(rand.NewSource(n))
	logrus.SetOutput(io.Discard)
	var in []string
	for k := range names {
		in = append(in, k, strings.ToUpper(k), strings.ToUpper(k[:1])+k[1:], strings.ToUpper(k[:len(k)-1])+k[len(k)-1:])
		for i := 0; i < 20; i++ {
			b := []byte(k)
			for j := range b {
				if r.Intn(2) == 0 {
					b[j] -= 32
				}
			}
			in = append(in, string(b))
		}
		in = append(in, " "+k, k+" ", k+"s", k[1:], k[:len(k)-1], k+"\n", k+"\x00", k+k)
	}
	in = append(in, "", " ", "0", "5", "err", "dbg", "verbose", "all", "off", "none", "critical", "notice", "warns", "tracing", "debugging", "INFO ", "ﬁatal")
	for _, s := range in {
		want, ok := names[strings.ToLower(s)]
		if !ok {
			want = logrus.InfoLevel
		}
		debug := want >= logrus.DebugLevel
		cfg := viper.New()
		cfg.Set("OM_LOGGING_LEVEL", s)
		cfg.Set("OM_LOGGING_FORMAT", []string{"", "json", "JSON", "text", "stackdriver", "x"}[r.Intn(6)])
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail(t, "C24.crash", "level %q: panic: %v", s, e)
				}
			}()
			if g := toLevel(s); g != want {
				fail(t, "C24.level", "toLevel(%q) = %v, want %v", s, g, want)
			}
			if g := IsDebugLevel(s); g != debug {
				fail(t, "C24.debugname", "IsDebugLevel(%q) = %v", s, g)
			}
			if g := isDebugLevel(want); g != debug {
				fail(t, "C24.debug", "isDebugLevel(%v) = %v", want, g)
			}
			if g := IsDebugEnabled(cfg); g != debug {
				fail(t, "C24.enabled", "IsDebugEnabled = %v with configured level %q", g, s)
			}
			logrus.SetLevel(logrus.Level(r.Intn(7)))
			ConfigureLogging(cfg)
			if g := logrus.GetLevel(); g != want {
				fail(t, "C24.configured", "configured level %q gives %v, want %v", s, g, want)
			}
		}()
	}
	fmt.Printf("VERIF-STATS configured levels: %d\n", len(in))
}

package props

import (
	"strconv"
	"strings"

	"github.com/lyokato/goidc/log"
	"vharness/nd"
)

var levelNames = []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

// line: s is one line with the level's label, no other level's, and ends in msg.
func line(s string, level int, msg string) bool {
	rest := strings.TrimSuffix(s, msg+"\n")
	if rest == s {
		return false
	}
	for i, n := range levelNames {
		if strings.Contains(rest, n) != (i == level) {
			return false
		}
	}
	return !strings.Contains(rest, "\n")
}

func logPlain(l log.Logger, level int, msg string) {
	switch level {
	case 0:
		l.Debug(msg)
	case 1:
		l.Info(msg)
	case 2:
		l.Warn(msg)
	case 3:
		l.Error(msg)
	case 4:
		l.Fatal(msg)
	}
}

func logFormat(l log.Logger, level int, format string, args ...interface{}) {
	switch level {
	case 0:
		l.Debugf(format, args...)
	case 1:
		l.Infof(format, args...)
	case 2:
		l.Warnf(format, args...)
	case 3:
		l.Errorf(format, args...)
	case 4:
		l.Fatalf(format, args...)
	}
}

// C31_level: a history of thresholds and messages of every level.
func C31_level() {
	l := log.NewDefaultLogger()
	n := 2 + nd.Tier()
	for i := 0; i < n; i++ {
		t := nd.Choice("threshold", 5)
		log.SetLevelForDefaultLogger(log.LogLevel(t))
		level := nd.Choice("level", 5)
		msg := nd.StrIn("msg", "^[\n", 0, -1)
		var out, want string
		switch nd.Choice("variant", 3) {
		case 0:
			want = msg
			out = nd.Capture(func() { logPlain(l, level, msg) })
		case 1: // arguments are formatted
			num := nd.Int("num", -maxT, maxT)
			want = "text <" + msg + "> " + strconv.FormatInt(num, 10) + " %"
			out = nd.Capture(func() { logFormat(l, level, "text <%s> %d %%", msg, num) })
		case 2: // a format without arguments
			want = "text"
			out = nd.Capture(func() { logFormat(l, level, "text") })
		}
		if level < t {
			nd.Assert(out == "", "a message below the threshold is not printed")
			nd.Reach("silent")
		} else {
			nd.Assert(line(out, level, want), "a message at or above the threshold is printed as one line with its level and text")
			nd.Reach("printed " + levelNames[level])
		}
	}
}

package streams

import (
	"sync"

	"github.com/twmb/franz-go/pkg/kgo"
)

type vpLogCall struct {
	level LogLevel
	msg   string
	args  []any
}

type vpLogger struct{ calls []vpLogCall }

func (l *vpLogger) Tracef(m string, a ...any) {
	l.calls = append(l.calls, vpLogCall{LogLevelTrace, m, a})
}
func (l *vpLogger) Debugf(m string, a ...any) {
	l.calls = append(l.calls, vpLogCall{LogLevelDebug, m, a})
}
func (l *vpLogger) Infof(m string, a ...any) {
	l.calls = append(l.calls, vpLogCall{LogLevelInfo, m, a})
}
func (l *vpLogger) Warnf(m string, a ...any) {
	l.calls = append(l.calls, vpLogCall{LogLevelWarn, m, a})
}
func (l *vpLogger) Errorf(m string, a ...any) {
	l.calls = append(l.calls, vpLogCall{LogLevelError, m, a})
}

func vpLogAt(l Logger, level LogLevel, msg string, args ...any) {
	switch level {
	case LogLevelTrace:
		l.Tracef(msg, args...)
	case LogLevelDebug:
		l.Debugf(msg, args...)
	case LogLevelInfo:
		l.Infof(msg, args...)
	case LogLevelWarn:
		l.Warnf(msg, args...)
	case LogLevelError:
		l.Errorf(msg, args...)
	}
}

// every 64-bit configured level, every message level, every message of 0..3 bytes and one argument, one to two nested wrappers
//
//vp:harness prop=C39
func vpH_C39_wrap() {
	sink := &vpLogger{}
	level := LogLevel(vpInt())
	l := WrapLogger(sink, level)
	level2 := LogLevel(vpInt())
	nested := vpChoose(2) == 1
	if nested {
		l = WrapLogger(l, level2)
	}
	at := LogLevel(1 + vpChoose(5))
	msg := vpString(vpChoose(4))
	arg := vpInt()
	vpLogAt(l, at, msg, arg)
	want := vpAnd(at >= level, level != LogLevelNone)
	if nested {
		want = vpAnd(want, vpAnd(at >= level2, level2 != LogLevelNone))
	}
	if len(sink.calls) == 0 {
		vpVerify(!want, "a message at or above the configured level is dropped")
		vpReach("dropped")
		return
	}
	vpVerify(want, "a message below the configured level is emitted")
	vpVerify(len(sink.calls) == 1, "a message is emitted more than once")
	c := sink.calls[0]
	vpVerify(c.level == at, "a message is emitted at another level")
	vpVerify(c.msg == msg, "the message is changed")
	vpVerify(len(c.args) == 1, "the arguments are changed")
	vpVerify(c.args[0].(int) == arg, "the argument is changed")
	vpReach("emitted")
}

// InitLogger with every 64-bit Kafka driver level: the Kafka client's messages of every level, filtered by the client as it does by Level()
//
//vp:harness prop=C39
func vpH_C39_kafka() {
	oneLogger = sync.Once{}
	sink := &vpLogger{}
	level := LogLevel(vpInt())
	vpAssume(vpOr(level == LogLevelNone, vpAnd(level >= LogLevelTrace, level <= LogLevelError)))
	got := InitLogger(sink, level)
	vpVerify(got == Logger(sink), "InitLogger does not use the given logger")
	other := &vpLogger{}
	vpVerify(InitLogger(other, LogLevelTrace) == Logger(sink), "a later InitLogger takes effect")
	levels := []kgo.LogLevel{kgo.LogLevelDebug, kgo.LogLevelInfo, kgo.LogLevelWarn, kgo.LogLevelError}
	ours := []LogLevel{LogLevelDebug, LogLevelInfo, LogLevelWarn, LogLevelError}
	i := vpChoose(4)
	msg := vpString(vpChoose(3))
	arg := vpInt()
	// the client drops what is more verbose than the level of its logger
	if kgoLogger.Level() >= levels[i] {
		kgoLogger.Log(levels[i], msg, "k", arg)
	}
	want := vpAnd(level != LogLevelNone, ours[i] >= level)
	vpVerify(len(other.calls) == 0, "a message goes to another logger")
	if len(sink.calls) == 0 {
		vpVerify(!want, "a message of the Kafka client at or above its level is dropped")
		vpReach("dropped")
		return
	}
	vpVerify(want, "a message of the Kafka client below its level is emitted")
	c := sink.calls[0]
	vpVerify(len(sink.calls) == 1 && c.level == ours[i], "a message of the Kafka client is emitted at another level")
	vpVerify(c.msg == msg && len(c.args) == 2 && c.args[0].(string) == "k" && c.args[1].(int) == arg, "a message of the Kafka client is changed")
	vpReach("emitted")
}

// the simple logger's own filter, every 64-bit level and every message level
//
//vp:harness prop=C39
func vpH_C39_simple() {
	// SimpleLogger prints; whether it would is observed through the argument it formats
	level := vpInt()
	at := LogLevel(1 + vpChoose(5))
	p := &vpProbe{}
	vpLogAt(SimpleLogger(level), at, "%v", p)
	want := vpAnd(int(at) >= level, LogLevel(level) != LogLevelNone)
	if p.n > 0 {
		vpVerify(want, "a message below the configured level is printed")
		vpReach("printed")
	} else {
		vpVerify(!want, "a message at or above the configured level is not printed")
		vpReach("not printed")
	}
}

type vpProbe struct{ n int }

func (p *vpProbe) String() string { p.n++; return "x" }

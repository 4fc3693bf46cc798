prop, pkg, helpers = "C09", "", ["client_test.go"]
needs = "a server that asks for heart-beats at exactly the interval that is configured as tolerance (5 seconds by default)"
breaks = "the sending interval becomes zero when the tolerance is subtracted, which means that no heart-beats are sent at all"
edits = [("conn.go", "if c.writeTimeout > options.HeartBeatError {", "if c.writeTimeout >= options.HeartBeatError {")]
demo = '''
package stomp

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	_, s := connect(t, []string{"version", "1.2", "heart-beat", "0,200"}, confirm,
		ConnOpt.HeartBeat(time.Minute, 0), ConnOpt.HeartBeatError(200*time.Millisecond))
	time.Sleep(2 * time.Second)
	if s.count("") == 0 {
		t.Error("no heart-beat")
	}
}
'''

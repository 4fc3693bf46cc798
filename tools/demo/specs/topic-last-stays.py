prop, pkg, helpers = "B09", "server/topic", []
needs = "several subscribers, of which the one that joined last leaves first"
breaks = "leaving a topic overlooks the last subscriber, which goes on getting messages"
edits = [("server/topic/topic.go", """	for e := t.subs.Front(); e != nil; e = e.Next() {
		if sub == e.Value.(Subscription) {
			t.subs.Remove(e)
			return
		}
	}""", """	for e := t.subs.Front(); e != nil; {
		next := e.Next()
		if next == nil && e.Prev() != nil {
			break
		}
		if sub == e.Value.(Subscription) {
			t.subs.Remove(e)
			return
		}
		e = next
	}""")]
demo = '''
package topic

import (
	"testing"

	"github.com/go-stomp/stomp/v3/frame"
)

type rec struct{ got []*frame.Frame }

func (r *rec) SendTopicFrame(f *frame.Frame) { r.got = append(r.got, f) }

func TestDemo(t *testing.T) {
	for n := 1; n < 5; n++ {
		for leave := 0; leave < n; leave++ {
			topic := NewManager().Find("/topic/demo")
			var subs []*rec
			for i := 0; i < n; i++ {
				subs = append(subs, &rec{})
				topic.Subscribe(subs[i])
			}
			topic.Unsubscribe(subs[leave])
			topic.Enqueue(frame.New("MESSAGE", "destination", "/topic/demo"))
			for i, s := range subs {
				want := 1
				if i == leave {
					want = 0
				}
				if len(s.got) != want {
					t.Fatalf("subscriber %d of %d got %d frames after %d left", i, n, len(s.got), leave)
				}
			}
		}
	}
}
'''

prop, pkg, helpers = "B02", "server", ["broker_test.go"]
needs = "a CONNECT frame without a login header, on a broker with an authenticator"
breaks = "the authenticator is not asked when the client does not name a login, so anyone can connect"
edits = [("server/client/conn.go", """	login, _ := f.Header.Contains(frame.Login)
	passcode, _ := f.Header.Contains(frame.Passcode)
	if !c.config.Authenticate(login, passcode) {""", """	login, ok := f.Header.Contains(frame.Login)
	passcode, _ := f.Header.Contains(frame.Passcode)
	if ok && !c.config.Authenticate(login, passcode) {""")]
demo = '''
package server_test

import (
	"testing"

	"github.com/go-stomp/stomp/v3/server"
)

type refuse struct{}

func (refuse) Authenticate(login, passcode string) bool { return login == "good" }

func TestDemo(t *testing.T) {
	addr := startBroker(t, &server.Server{Authenticator: refuse{}})
	p := dialBroker(t, addr)
	p.connect("1.2", "login", "good", "passcode", "x")
	p = dialBroker(t, addr)
	p.send("CONNECT", "", "accept-version", "1.2", "host", "h")
	p.want("ERROR")
}
'''

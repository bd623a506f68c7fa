package ctngverif

// P23: the whole system. Loggers, CAs, gossipers, monitors and clients run
// together, some of them misbehave or are down; what the clients end up with
// is what the system promises.

import (
	"testing"

	"pgregory.net/rapid"
)

func TestP23System(t *testing.T) {
	slots(t, 5, 5, 3, 2)
	check(t, 22, func(rt *rapid.T, c *Case) { system(t, rt, c, 5) })
}

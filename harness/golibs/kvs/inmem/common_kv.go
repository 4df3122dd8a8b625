package inmem

import "context"

var nids int

//sym:replace github.com/solarisdb/solaris/golibs/ulidutils.NewID
func symNewID() string {
	nids++
	return "01HQ0000000000000000000A" + string(rune('A'+nids/10)) + string(rune('0'+nids%10))
}

var bg = context.Background()


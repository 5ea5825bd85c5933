//go:build go1.23

// Code generated once for the 32 combinations; there is no generator to run.

package harness

import "net/http"

// writer returns c as a http.ResponseWriter with exactly the optional
// interfaces of mask: 1 Hijacker 2 CloseNotifier 4 Pusher 8 Flusher 16
// io.ReaderFrom.
func (c *ohConn) writer(mask int) http.ResponseWriter {
	b, hj, cn, pu, fl, rf := ohBase{c}, ohHij{c}, ohCN{c}, ohPush{c}, ohFlush{c}, ohRF{c}
	_, _, _, _, _ = hj, cn, pu, fl, rf
	switch mask {
	case 0:
		return struct {
			ohBase
		}{b}
	case 1:
		return struct {
			ohBase
			ohHij
		}{b, hj}
	case 2:
		return struct {
			ohBase
			ohCN
		}{b, cn}
	case 3:
		return struct {
			ohBase
			ohHij
			ohCN
		}{b, hj, cn}
	case 4:
		return struct {
			ohBase
			ohPush
		}{b, pu}
	case 5:
		return struct {
			ohBase
			ohHij
			ohPush
		}{b, hj, pu}
	case 6:
		return struct {
			ohBase
			ohCN
			ohPush
		}{b, cn, pu}
	case 7:
		return struct {
			ohBase
			ohHij
			ohCN
			ohPush
		}{b, hj, cn, pu}
	case 8:
		return struct {
			ohBase
			ohFlush
		}{b, fl}
	case 9:
		return struct {
			ohBase
			ohHij
			ohFlush
		}{b, hj, fl}
	case 10:
		return struct {
			ohBase
			ohCN
			ohFlush
		}{b, cn, fl}
	case 11:
		return struct {
			ohBase
			ohHij
			ohCN
			ohFlush
		}{b, hj, cn, fl}
	case 12:
		return struct {
			ohBase
			ohPush
			ohFlush
		}{b, pu, fl}
	case 13:
		return struct {
			ohBase
			ohHij
			ohPush
			ohFlush
		}{b, hj, pu, fl}
	case 14:
		return struct {
			ohBase
			ohCN
			ohPush
			ohFlush
		}{b, cn, pu, fl}
	case 15:
		return struct {
			ohBase
			ohHij
			ohCN
			ohPush
			ohFlush
		}{b, hj, cn, pu, fl}
	case 16:
		return struct {
			ohBase
			ohRF
		}{b, rf}
	case 17:
		return struct {
			ohBase
			ohHij
			ohRF
		}{b, hj, rf}
	case 18:
		return struct {
			ohBase
			ohCN
			ohRF
		}{b, cn, rf}
	case 19:
		return struct {
			ohBase
			ohHij
			ohCN
			ohRF
		}{b, hj, cn, rf}
	case 20:
		return struct {
			ohBase
			ohPush
			ohRF
		}{b, pu, rf}
	case 21:
		return struct {
			ohBase
			ohHij
			ohPush
			ohRF
		}{b, hj, pu, rf}
	case 22:
		return struct {
			ohBase
			ohCN
			ohPush
			ohRF
		}{b, cn, pu, rf}
	case 23:
		return struct {
			ohBase
			ohHij
			ohCN
			ohPush
			ohRF
		}{b, hj, cn, pu, rf}
	case 24:
		return struct {
			ohBase
			ohFlush
			ohRF
		}{b, fl, rf}
	case 25:
		return struct {
			ohBase
			ohHij
			ohFlush
			ohRF
		}{b, hj, fl, rf}
	case 26:
		return struct {
			ohBase
			ohCN
			ohFlush
			ohRF
		}{b, cn, fl, rf}
	case 27:
		return struct {
			ohBase
			ohHij
			ohCN
			ohFlush
			ohRF
		}{b, hj, cn, fl, rf}
	case 28:
		return struct {
			ohBase
			ohPush
			ohFlush
			ohRF
		}{b, pu, fl, rf}
	case 29:
		return struct {
			ohBase
			ohHij
			ohPush
			ohFlush
			ohRF
		}{b, hj, pu, fl, rf}
	case 30:
		return struct {
			ohBase
			ohCN
			ohPush
			ohFlush
			ohRF
		}{b, cn, pu, fl, rf}
	case 31:
		return struct {
			ohBase
			ohHij
			ohCN
			ohPush
			ohFlush
			ohRF
		}{b, hj, cn, pu, fl, rf}
	}
	panic("mask")
}

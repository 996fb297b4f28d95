//go:build san

package main

import "github.com/roy2220/fsm"

const variant = "san"

type sanCounts = fsm.SanCounts
type sanSpace = fsm.SanSpace

func sanCount(path string) sanCounts { return fsm.SanCount(path) }

func sanLive(path string) ([]sanSpace, bool) { return fsm.SanLive(path) }

func sanForget(path string) { fsm.SanForget(path) }

// sanBegin and sanEnd count the distinct spaces touched in between.
func sanBegin(path string) { fsm.SanOf(path).SanTouchBegin() }

func sanEnd(path string) (all, aligned int) { return fsm.SanOf(path).SanTouchEnd() }

// sanAccesses is how many times spaces were accessed, since the last report.
func sanAccesses() int64 { return fsm.San.Accesses }

// sanOpening makes storages opened record what is touched from the start.
func sanOpening(on bool) { fsm.SanTouchOpen = on }

// sanClosing records until after the storage is closed.
func sanClosing(path string) func() (all, aligned int) {
	fs := fsm.SanOf(path)
	fs.SanTouchBegin()
	return fs.SanTouchEnd
}

func sanFail(open, close error) { fsm.SanOpenErr, fsm.SanCloseErr = open, close }

// sanReport counts what the sanitizer observed since the last report.
func sanReport(c *Ctx) {
	n := fsm.San
	c.Count("san.allocs", n.Allocs+n.AlignedAllocs)
	c.Count("san.frees", n.Frees+n.AlignedFrees)
	c.Count("san.accesses", n.Accesses)
	c.Count("san.remaps", n.Remaps)
	c.Max("san.live", n.MaxLive)
	fsm.San = fsm.SanCounters{}
}

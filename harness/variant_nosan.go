//go:build !san

package main

// Without the sanitizing storage there is nothing to ask.

type sanCounts struct {
	Spaces, Aligned            int
	SpaceBytes, AlignedBytes   int64
	SpaceRequest, AlignRequest int64
	Tracked                    bool
}

type sanSpace struct {
	Addr    int64
	Request int
	Size    int
	Aligned bool
	Serial  int
}

func noSan() { panic(inconclusive("this case is for the sanitizing storage")) }

func sanCount(string) sanCounts         { noSan(); return sanCounts{} }
func sanLive(string) ([]sanSpace, bool) { noSan(); return nil, false }
func sanForget(string)                  {}
func sanBegin(string)                   { noSan() }
func sanEnd(string) (all, aligned int)  { noSan(); return }
func sanOpening(bool)                   { noSan() }
func sanClosing(string) func() (all, aligned int) {
	noSan()
	return nil
}
func sanAccesses() int64        { noSan(); return 0 }
func sanFail(open, close error) { noSan() }
func sanReport(c *Ctx)          {}

//sym:models common_fs.go

package chunkfs

import (
	"context"
	"sync"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/verifsym"
)

// accWorld is what the users of a chunk do at a time: what is noted lies inside of what the accessor knows of
type accWorld struct {
	mu       sync.Mutex
	writing  int // the number of the writing access which goes on, 0 if none
	writings int
	opened   bool
	deleting bool
	deletes  int  // how many deletions were begun
	closing  bool // the shutdown was begun
	closed   bool // and it is over
}

func (w *accWorld) with(f func()) {
	w.mu.Lock()
	f()
	w.mu.Unlock()
}

const accID = "ll"

// write takes the write access, may be used by the one who has opened the chunk
func (w *accWorld) write(ctx context.Context, ca *ChunkAccessor, inside func()) error {
	over := false
	w.with(func() { over = w.closed })
	err := ca.SetWriting(ctx, accID)
	if err != nil {
		w.why(ctx, err)
		return err
	}
	verifsym.Assert(!over, "access: nothing is given after the shutdown")
	w.with(func() {
		verifsym.Assert(w.writing == 0, "access: writing is exclusive")
		verifsym.Assert(!w.deleting, "access: a chunk being deleted is not written")
		w.writings++
		w.writing = w.writings
	})
	verifsym.Reach("written")
	verifsym.Pause()
	if inside != nil {
		inside()
	}
	w.with(func() { w.writing = 0 })
	ca.SetIdle(accID)
	return nil
}

// why checks that an access may be refused
func (w *accWorld) why(ctx context.Context, err error) {
	w.with(func() {
		switch {
		case errors.Is(err, errors.ErrNotExist):
			verifsym.Assert(w.deletes > 0, "access: only a deletion refuses the access")
			verifsym.Reach("refused")
		case errors.Is(err, errors.ErrClosed):
			verifsym.Assert(w.closing, "access: the accessor tells it is closed after the shutdown only")
			verifsym.Reach("closed")
		default:
			verifsym.Assert(ctx.Err() != nil && errors.Is(err, ctx.Err()), "access: only cancellation, deletion and shutdown refuse the access")
			verifsym.Reach("cancelled")
		}
	})
}

// open opens the chunk, does something and closes it
func (w *accWorld) open(ctx context.Context, ca *ChunkAccessor, inside func()) error {
	over, before := false, 0
	w.with(func() { over, before = w.closed, w.writing })
	err := ca.openChunk(ctx, accID)
	if err != nil {
		w.why(ctx, err)
		return err
	}
	verifsym.Assert(!over, "access: nothing is given after the shutdown")
	w.with(func() {
		verifsym.Assert(before == 0 || w.writing != before, "access: a chunk is not opened while it is written")
		verifsym.Assert(!w.deleting, "access: a chunk being deleted is not opened")
		verifsym.Assert(!w.opened, "access: a chunk is opened once")
		w.opened = true
	})
	verifsym.Reach("opened")
	verifsym.Pause()
	if inside != nil {
		inside()
	}
	w.with(func() { w.opened = false })
	verifsym.Assert(ca.closeChunk(accID) == nil, "access: a chunk which is opened can be closed")
	return nil
}

// remove tries to delete the chunk
func (w *accWorld) remove(ca *ChunkAccessor) bool {
	w.with(func() { w.deletes++ })
	if !ca.setDeleting(accID) {
		verifsym.Reach("kept")
		return false
	}
	w.with(func() {
		verifsym.Assert(!w.deleting && !w.opened && w.writing == 0, "access: a chunk which is used is not deleted")
		w.deleting = true
	})
	verifsym.Reach("deleted")
	verifsym.Pause()
	w.with(func() { w.deleting = false })
	ca.SetIdle(accID)
	return true
}

// end checks that nothing is left behind
func (w *accWorld) end(ca *ChunkAccessor) {
	verifsym.Delays(0)
	bg := context.Background()
	verifsym.Assert(ca.setDeleting(accID), "access: a chunk nobody uses can be deleted")
	verifsym.Assert(!ca.setDeleting(accID), "access: deletion is exclusive")
	verifsym.Assert(errors.Is(ca.SetWriting(bg, accID), errors.ErrNotExist), "access: a chunk being deleted is not written")
	verifsym.Assert(errors.Is(ca.openChunk(bg, accID), errors.ErrNotExist), "access: a chunk being deleted is not opened")
	ca.SetIdle(accID)
	verifsym.Assert(ca.SetWriting(bg, accID) == nil, "access: a chunk nobody uses can be written")
	ca.SetIdle(accID)
	verifsym.Assert(ca.openChunk(bg, accID) == nil, "access: a chunk nobody uses can be opened")
	verifsym.Assert(!ca.setDeleting(accID), "access: an open chunk is not deleted")
	verifsym.Assert(ca.SetWriting(bg, accID) == nil && !ca.setDeleting(accID), "access: an open chunk can be written")
	ca.SetIdle(accID)
	verifsym.Assert(!ca.setDeleting(accID), "access: an open chunk is not deleted after a writing")
	verifsym.Assert(ca.closeChunk(accID) == nil && ca.closeChunk(accID) != nil, "access: a chunk is closed once")
	verifsym.Reach("end")
}

// 3 users of a chunk: one opens it, writes it or reads only, and closes it; the second one writes it once or twice; the third one writes or tries to delete it once or twice; every schedule with up to 2 delays
//
//sym:harness prop=C25 budget=60s reach=end,opened,written,deleted,kept,refused repeat=3000
func HAccess() { access(2) }

// as HAccess with up to 4 delays
//
//sym:harness prop=C25 tier=thorough budget=600s reach=end,opened,written,deleted,kept,refused repeat=3000
func HAccessDeep() { access(4) }

func access(delays int) {
	ca := NewChunkAccessor()
	w := &accWorld{}
	bg := context.Background()
	first := verifsym.Choose("first", 2)
	second := 1 + verifsym.Choose("second", 2)
	third := verifsym.Choose("third", 3)
	verifsym.Delays(delays)
	verifsym.Parallel(
		func() {
			w.open(bg, ca, func() {
				if first == 1 {
					w.write(bg, ca, nil)
				}
			})
		},
		func() {
			verifsym.Pause()
			for i := 0; i < second; i++ {
				w.write(bg, ca, nil)
			}
		},
		func() {
			verifsym.Pause()
			if third == 0 {
				w.write(bg, ca, nil)
				return
			}
			for i := 0; i < third; i++ {
				w.remove(ca)
			}
		})
	w.end(ca)
}

// a chunk is written, opened or not; one user waits to open it (if not open) or to write it, another one too; the context of the first one is cancelled or the accessor is shut down at any time or nothing happens, the writing ends at any time or after all: those who wait get their turn or the error; every schedule with up to 2 delays
//
//sym:harness prop=C25 budget=60s reach=end,cancelled,closed,opened,written repeat=3000
func HAccessCancel() { accessCancel(2) }

// as HAccessCancel with up to 4 delays
//
//sym:harness prop=C25 tier=thorough budget=600s reach=end,cancelled,closed,opened,written repeat=3000
func HAccessCancelDeep() { accessCancel(4) }

func accessCancel(delays int) {
	ca := NewChunkAccessor()
	w := &accWorld{}
	bg := context.Background()
	ctx, cancel := context.WithCancel(bg)
	how := verifsym.Choose("how", 3)
	opens := verifsym.Choose("opens", 2) == 1
	lasts := how > 0 && verifsym.Choose("lasts", 2) == 1 // the writing ends after all
	verifsym.Assert(ca.SetWriting(bg, accID) == nil, "access: a chunk nobody uses can be written")
	w.writings, w.writing = 1, 1
	ends := func() {
		w.with(func() { w.writing = 0 })
		ca.SetIdle(accID)
	}
	verifsym.Delays(delays)
	verifsym.Parallel(
		func() {
			switch how {
			case 1:
				cancel()
			case 2:
				w.with(func() { w.closing = true })
				ca.Shutdown()
				w.with(func() { w.closed = true })
			}
		},
		func() {
			verifsym.Pause()
			if !lasts {
				ends()
			}
		},
		func() {
			if opens {
				w.open(ctx, ca, nil)
			} else {
				w.write(ctx, ca, nil)
			}
		},
		func() {
			verifsym.Pause()
			if !lasts {
				w.write(bg, ca, nil)
			} else {
				verifsym.Assert(!w.remove(ca), "access: a chunk being written is not deleted")
			}
		})
	cancel()
	if lasts {
		ends()
	}
	if how != 2 {
		w.end(ca)
		return
	}
	verifsym.Assert(!ca.setDeleting(accID) && ca.SetWriting(bg, accID) != nil && ca.openChunk(bg, accID) != nil, "access: nothing is given after the shutdown")
	verifsym.Reach("end")
}

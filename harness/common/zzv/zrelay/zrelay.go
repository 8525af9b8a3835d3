// Package zrelay is the destination side of a relay: a sender that records what
// it is asked to relay, driven by a real link.
package zrelay

import (
	"sync"
	"time"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/errors"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/types"
	zzv "github.com/icon-project/btp/common/zzv"
	"github.com/icon-project/btp/common/zzv/znode"
)

// Lock guards the harness's own state in a native run; the engine switches
// goroutines at synchronisation only, so it needs none there.
func Lock(m *sync.Mutex) func() {
	if zzv.Symbolic() {
		return func() {}
	}
	m.Lock()
	return m.Unlock
}

// Sender records the relay messages.
type Sender struct {
	mtx   sync.Mutex
	Limit int
	St    types.BMCLinkStatus
	Got   [][]byte
	ch    chan types.SenderMessage

	// A destination that executes relay messages as its contracts do, if set.
	// Exec tells the failure code, 0 for success, and updates St.
	Exec   func(m []byte) int
	Lost   int    // the Lost'th transaction is never executed
	Late   bool   // transactions are executed in any order
	Fail   int    // the Fail'th Relay fails
	Next   func() // another relay's transaction, before our NextAt'th
	NextAt int

	NoStart  bool // Start fails
	NoStatus int  // the NoStatus'th status of the link's asking fails
	asked    int
}

func NewSender() *Sender {
	s := &Sender{ch: make(chan types.SenderMessage)}
	s.St.TxSeq = zzv.I64("txseq") // of the other direction, has no meaning here
	return s
}

func (s *Sender) Start() (<-chan types.SenderMessage, error) {
	if s.NoStart {
		return nil, errors.New("not started")
	}
	return s.ch, nil
}
func (s *Sender) Stop() {}
func (s *Sender) GetStatus() (*types.BMCLinkStatus, error) {
	defer Lock(&s.mtx)()
	if s.asked++; s.asked == s.NoStatus {
		return nil, errors.New("no status")
	}
	st := s.St
	return &st, nil
}
func (s *Sender) Relay(rm types.RelayMessage) (int, error) {
	zzv.Jitter()
	defer Lock(&s.mtx)()
	m := append([]byte{}, rm.Bytes()...)
	s.Got = append(s.Got, m)
	n := len(s.Got)
	zzv.Assert(n <= 32, "the same is not relayed for ever")
	if n == s.Fail {
		return 0, errors.New("not sent")
	}
	if s.Exec == nil {
		return rm.Id(), nil
	}
	if n == s.NextAt {
		s.Next()
	}
	code := 0
	if !s.Late && n != s.Lost {
		code = s.Exec(m)
	}
	go s.result(rm.Id(), m, code, s.Late && n != s.Lost)
	return rm.Id(), nil
}

func (s *Sender) result(id int, m []byte, code int, exec bool) {
	zzv.Jitter()
	if exec {
		zzv.Yield()
		func() {
			defer Lock(&s.mtx)()
			code = s.Exec(m)
		}()
	}
	if code != 0 {
		s.ch <- &types.RelayResult{Id: id, Err: errors.Code(code)}
	}
	zzv.Jitter()
	st := func() types.BMCLinkStatus {
		defer Lock(&s.mtx)()
		return s.St
	}()
	zzv.Jitter()
	s.ch <- &st
}
func (s *Sender) GetMarginForLimit() int64 { return 0 }
func (s *Sender) TxSizeLimit() int         { return s.Limit }

// Run starts a link between r and s and waits until nothing happens any more;
// it tells whether the link has ended.
func Run(s *Sender, r link.Receiver, src, dst types.BtpAddress) bool {
	cfg := &chain.Config{}
	cfg.Src.Address, cfg.Dst.Address = src, dst
	lk := link.NewLink(cfg, r, znode.L{})
	ended := false
	go func() {
		err := lk.Start(s)
		zzv.Assert(err != nil, "a link that ends tells why")
		defer Lock(&s.mtx)()
		ended = true
	}()
	count := func() (n int, end bool) {
		defer Lock(&s.mtx)()
		return len(s.Got), ended
	}
	if zzv.Symbolic() {
		zzv.Settle()
	} else {
		for i, last, same := 0, -1, 0; i < 100 && same < 15; i++ {
			time.Sleep(20 * time.Millisecond)
			if n, _ := count(); n == last {
				same++
			} else {
				last, same = n, 0
			}
		}
	}
	_, end := count()
	return end
}

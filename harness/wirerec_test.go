package lens

import (
	"net"
	"sync"
	"testing"
)

type vfRecorder struct {
	mu     sync.Mutex
	states map[uint32][]LensMonitorMessagePointState
	points map[uint32][]LensMonitorMessagePoint
	panics map[uint32][]LensMonitorMessagePointPanic
	total  int
}

func vfNewRecorder() *vfRecorder {
	return &vfRecorder{states: map[uint32][]LensMonitorMessagePointState{}, points: map[uint32][]LensMonitorMessagePoint{}, panics: map[uint32][]LensMonitorMessagePointPanic{}}
}

func (h *vfRecorder) HandleFuncPoint(m LensMonitorMessagePoint) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.points[m.PointID] = append(h.points[m.PointID], m)
	h.total++
}
func (h *vfRecorder) HandleFuncPointState(m LensMonitorMessagePointState) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.states[m.PointID] = append(h.states[m.PointID], m)
	h.total++
}
func (h *vfRecorder) HandleFuncPointPanic(m LensMonitorMessagePointPanic) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.panics[m.PointID] = append(h.panics[m.PointID], m)
	h.total++
}

func vfFreePort(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vfMust(t, err)
	defer func() { _ = l.Close() }()
	return l.Addr().(*net.TCPAddr).Port
}

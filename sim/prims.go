package sim

// Waiter is one task's place in a WaitList.
type Waiter struct {
	t     *Task
	woken bool
}

// WaitList is a queue of tasks waiting for some condition.
type WaitList struct{ q []*Waiter }

// Enqueue registers the running task.
func (w *WaitList) Enqueue() *Waiter {
	x := &Waiter{t: S.Cur}
	w.q = append(w.q, x)
	return x
}

// Await blocks until the waiter has been woken.
func (x *Waiter) Await() {
	for !x.woken {
		x.t.block()
	}
}

// Wait blocks the running task until it is woken.
func (w *WaitList) Wait() { w.Enqueue().Await() }

// WakeAll makes all waiters runnable; each re-checks its condition.
func (w *WaitList) WakeAll() {
	q := w.q
	w.q = nil
	for _, x := range q {
		x.woken = true
		S.ready(x.t)
	}
}

// WakeOne wakes the longest waiting live task.
func (w *WaitList) WakeOne() {
	for len(w.q) > 0 {
		x := w.q[0]
		w.q = w.q[1:]
		if x.t.Node != nil && x.t.Node.Dead {
			continue
		}
		x.woken = true
		S.ready(x.t)
		return
	}
}

func (w *WaitList) Len() int { return len(w.q) }

// InTask reports whether the caller is a scheduled task.
func InTask() bool { return S != nil && S.Cur != nil }

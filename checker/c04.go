package main

func init() {
	register(&Check{
		ID:        "C04",
		Technique: "typestate analysis of channels, wait groups, semaphores and locks over go/ssa, with a summary of what each goroutine signals and waits for and a search for circular waits",
		Explanation: "Train of each model and mode is interpreted abstractly with the state of every channel, wait group and semaphore it makes. At each go statement the goroutine is analysed from the state it starts in: its summary says what it signals on every way to its end (done, close, send), what it waits for and which signals come before that. " +
			"At each place where Train waits, the goroutine that ends the wait must be running and every wait on its way to that signal must be ended by others that are running, without a circle. Wait groups are added to before and by as many as are done, a channel is closed once and not sent to afterwards, what is acquired or taken from a pool is given back on every path and nothing else is waited for while a pooled buffer or a lock is held, a pool is filled with no more than it can hold, and BatchWords of each corpus closes its channel on every path.",
		Assumptions: []string{
			"Goroutines is positive (C09), and a goroutine that is not waiting makes progress: endless loops are not looked for.",
			"A panic ends the process (C10 decides the ones that an input can cause).",
		},
		Run: runC04,
	})
	register(&Check{
		ID:        "C06",
		Technique: "typestate analysis of the goroutines that Train starts over go/ssa: which may be running, and by which signal each is waited for",
		Explanation: "Train of each model and mode is interpreted abstractly with the set of goroutines that may be running. A wait for a wait group, a receive and the end of a range over a channel end those whose last action is the signal that was waited for. " +
			"None may be running when Train returns, with or without an error, when an iteration starts again, or when what it signals with is made anew, and a goroutine must do nothing after the signal except release its semaphore.",
		Assumptions: []string{"A goroutine that gave its last signal and has only to return counts as finished."},
		Run:         runC06,
	})
}

func concModes(r *Rep, rules ...string) {
	p := r.P
	for _, m := range p.models(r) {
		for _, md := range m.trainModes() {
			m.setMin(md.S, "Goroutines", 1)
			c := newConc(r, md.Name)
			c.run(m.Train, md.S)
			c.emit(rules...)
		}
	}
}

func runC04(r *Rep) {
	r.rule("known", 0, "everything that blocks, signals or starts a goroutine is one of the forms that are analysed")
	r.rule("needs", 12, "whatever Train waits for is signalled by goroutines that get there")
	r.rule("channels", 20, "a channel is closed once, and nothing is sent to it afterwards")
	r.rule("waitgroup", 12, "a wait group is added to before each goroutine is started, which is done once")
	r.rule("signals", 12, "a goroutine gives its signals on every way to its end")
	r.rule("semaphore", 6, "what is acquired is released, and not more than there is")
	r.rule("pool", 4, "what is taken from a pool is given back, and nothing is waited for in between")
	r.rule("fill", 2, "a pool is filled with at least one and no more than it can hold")
	r.rule("locks", 10, "nothing is waited for while a lock is held or inside a sync.Once")
	r.rule("closes", 2, "BatchWords closes its channel")
	concModes(r, "known", "needs", "channels", "waitgroup", "signals", "semaphore", "pool", "fill", "locks")
	for _, ct := range r.P.corpora(r) {
		c := newConc(r, "corpus")
		c.closes(ct.bw)
		c.emit("closes", "known", "channels", "locks")
	}
}

func runC06(r *Rep) {
	r.rule("joined", 16, "a goroutine is waited for before Train returns and before the next iteration")
	r.rule("waitgroup", 12, "a wait group is added to before each goroutine is started, which is done once")
	r.rule("signals", 12, "a goroutine gives its signals once, on every way to its end")
	r.rule("last", 10, "a goroutine does nothing after the signal by which it is waited for")
	concModes(r, "known", "joined", "last", "waitgroup", "signals")
}

package main

import (
	"os"
	"path/filepath"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
)

// runMeta opens a torrent file.
func runMeta() {
	s := w.s.Meta
	var err error
	var t *torrent.Torrent
	done := make(chan struct{})
	go clientCall(func() {
		var m bencode.Metainfo
		if err = bencode.Unmarshal(s.Raw, &m); err == nil {
			t, err = torrent.New(&m, "out", logger())
		}
		close(done)
	})
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		violate("C15", "hangs", "opening the torrent has not returned")
		return
	}
	ev("opened: %v", err)
	if err == nil {
		count("accepted")
	} else {
		count("refused")
	}
	switch {
	case s.Accept == 1 && err != nil && len(w.s.Disk) == 0:
		violate("C15", "refused", "a valid torrent (%s) is refused: %v", s.Note, err)
	case s.Accept == -1 && err == nil:
		violate("C15", "accepted", "a torrent with %s is accepted", s.Note)
	case s.Accept == 1 && err == nil:
		w.fs.host = true
		for _, l := range w.s.Torrent.Layout() {
			p := filepath.Join(append([]string{w.out}, l.Path...)...)
			if st, err := os.Lstat(p); err != nil || !st.Mode().IsRegular() {
				violate("C15", "layout", "%s was not created", rel(p))
			}
		}
		if t.Length != w.s.Torrent.Length() {
			violate("C15", "layout", "the torrent has %d bytes instead of %d", t.Length, w.s.Torrent.Length())
		}
		w.fs.host = false
	}
	judgeMemory()
}

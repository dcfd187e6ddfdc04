package sqlite_test

import (
	"bytes"
	"context"
	"database/sql"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/benbjohnson/clock"

	"github.com/bobg/fab/sqlite"
)

// Histories of a database, against a table kept in memory. All files are in a scratch directory.

var (
	ncases, nfails int
)

func failf(format string, args ...any) {
	nfails++
	if nfails <= 20 {
		s := strings.ReplaceAll(fmt.Sprintf(format, args...), "\n", `\n`)
		if len(s) > 900 {
			s = s[:900] + "…"
		}
		fmt.Printf("\nREPLAY-FAIL %s\n", s)
	}
}

func scenario(t *testing.T, name string, f func()) {
	fmt.Printf("\nREPLAY-SCENARIO %s\n", name)
	defer func() {
		if r := recover(); r != nil {
			failf("%s: panic: %v", name, r)
		}
		if nfails > 0 {
			t.Fail()
		}
	}()
	f()
}

type history struct {
	dir   string
	path  string
	db    *sqlite.DB
	raw   *sql.DB
	clk   *clock.Mock
	keep  time.Duration
	upd   bool
	rows  map[string]int64
	log   []string
	ended bool
}

func (h *history) say(format string, args ...any) {
	h.log = append(h.log, fmt.Sprintf(format, args...))
}

func (h *history) fail(format string, args ...any) {
	if !h.ended {
		failf("%s: after %s", fmt.Sprintf(format, args...), strings.Join(h.log, "; "))
	}
	h.ended = true
}

func (h *history) open(keep time.Duration, upd int) {
	var opts []sqlite.Option
	opts = append(opts, sqlite.WithClock(h.clk))
	var names []string
	if keep != 0 {
		opts = append(opts, sqlite.Keep(keep))
		names = append(names, fmt.Sprintf("Keep(%v)", keep))
	}
	h.keep, h.upd = keep, true
	if upd != 0 {
		h.upd = upd > 0
		opts = append(opts, sqlite.UpdateOnAccess(h.upd))
		names = append(names, fmt.Sprintf("UpdateOnAccess(%v)", h.upd))
	}
	h.say("Open(%s)", strings.Join(names, ", "))
	db, err := sqlite.Open(h.path, opts...)
	if err != nil {
		h.fail("Open fails: %v", err)
		panic("Open")
	}
	h.db = db
}

func newHistory(dir string) *history {
	d, err := os.MkdirTemp(dir, "h")
	if err != nil {
		panic(err)
	}
	h := &history{dir: d, path: filepath.Join(d, "db"), clk: clock.NewMock(), rows: map[string]int64{}}
	h.clk.Add(1000 * time.Hour)
	raw, err := sql.Open("sqlite3", h.path)
	if err != nil {
		panic(err)
	}
	h.raw = raw
	return h
}

func (h *history) close() {
	h.db.Close()
	h.raw.Close()
	os.RemoveAll(h.dir)
}

func (h *history) add(k []byte) {
	h.say("Add(%x)", k)
	in := append([]byte(nil), k...)
	err := h.db.Add(context.Background(), in)
	if err != nil {
		h.fail("Add fails: %v", err)
		return
	}
	if !bytes.Equal(in, k) {
		h.fail("Add changes its argument")
	}
	now := h.clk.Now()
	h.rows[string(k)] = now.Unix()
	if h.keep > 0 {
		limit := now.Add(-h.keep).Unix()
		for x, s := range h.rows {
			if s < limit {
				delete(h.rows, x)
			}
		}
	}
	h.check()
}

func (h *history) has(k []byte) {
	h.say("Has(%x)", k)
	got, err := h.db.Has(context.Background(), k)
	if err != nil {
		h.fail("Has fails: %v", err)
		return
	}
	_, want := h.rows[string(k)]
	if got != want {
		h.fail("Has(%x) is %v", k, got)
	}
	if want && h.upd {
		h.rows[string(k)] = h.clk.Now().Unix()
	}
	h.check()
}

func (h *history) wait(d time.Duration) {
	h.say("%v pass", d)
	h.clk.Add(d)
}

// check compares the table with what it should hold.
func (h *history) check() {
	ncases++
	rows, err := h.raw.Query("SELECT hash, unix_secs FROM hashes")
	if err != nil {
		h.fail("reading the table: %v", err)
		return
	}
	defer rows.Close()
	var got []string
	for rows.Next() {
		var k []byte
		var s int64
		if err := rows.Scan(&k, &s); err != nil {
			h.fail("reading the table: %v", err)
			return
		}
		got = append(got, fmt.Sprintf("%x@%d", k, s))
	}
	var want []string
	for k, s := range h.rows {
		want = append(want, fmt.Sprintf("%x@%d", k, s))
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		h.fail("the table holds %v and not %v", got, want)
	}
}

var keys = [][]byte{{1}, {0}, {0, 0}, []byte("abc"), []byte("ABC"), []byte("abc "), []byte("1"), {0xff, 0xfe}, bytes.Repeat([]byte{7}, 100)}

func TestC12(t *testing.T) {
	defer func() { fmt.Printf("\nREPLAY-CASES %d\n", ncases) }()
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = t.TempDir()
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	n := 40
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 600
	}

	scenario(t, "each pair of options, times around the moment of eviction", func() {
		for _, keep := range []time.Duration{0, time.Second, 10 * time.Second, 1500 * time.Millisecond, -5 * time.Second} {
			for upd := -1; upd <= 1; upd++ {
				for _, d := range []time.Duration{keep - time.Second, keep, keep + 500*time.Millisecond, keep + time.Second, keep + 2*time.Second} {
					if d < 0 {
						continue
					}
					h := newHistory(dir)
					h.open(keep, upd)
					h.has(keys[0])
					h.add(keys[0])
					h.add(keys[1])
					h.wait(d / 2)
					h.has(keys[1])
					h.add(keys[2])
					h.wait(d - d/2)
					h.add(keys[3])
					h.has(keys[0])
					h.has(keys[1])
					h.has(keys[2])
					h.add(keys[3])
					h.close()
				}
			}
		}
	})

	scenario(t, "random histories", func() {
		for i := 0; i < n && nfails == 0; i++ {
			rnd := rand.New(rand.NewSource(int64(seed*100003 + i)))
			keeps := []time.Duration{0, 0, time.Second, 3 * time.Second, 2500 * time.Millisecond}
			h := newHistory(dir)
			h.open(keeps[rnd.Intn(len(keeps))], rnd.Intn(3)-1)
			m := 2 + rnd.Intn(len(keys)-1)
			for j := 0; j < 25 && !h.ended; j++ {
				k := keys[rnd.Intn(m)]
				switch rnd.Intn(9) {
				case 8:
					back := time.Duration(rnd.Intn(3)) * time.Second
					h.say("the clock is set back by %v", back)
					h.clk.Set(h.clk.Now().Add(-back))
				case 0, 1, 2:
					h.add(k)
				case 3, 4:
					h.has(k)
				case 5, 6:
					h.wait(time.Duration(rnd.Intn(8)) * 500 * time.Millisecond)
				case 7:
					h.say("Close")
					if err := h.db.Close(); err != nil {
						h.fail("Close fails: %v", err)
					}
					h.open(keeps[rnd.Intn(len(keeps))], rnd.Intn(3)-1)
				}
			}
			h.close()
		}
	})

	scenario(t, "errors are reported", func() {
		for upd := -1; upd <= 1; upd += 2 {
			h := newHistory(dir)
			h.open(time.Hour, upd)
			h.add(keys[0])
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			if got, err := h.db.Has(ctx, keys[0]); err == nil {
				h.fail("Has with a canceled context is %v, and no error", got)
			}
			if err := h.db.Add(ctx, keys[1]); err == nil {
				h.fail("Add with a canceled context gives no error")
			}
			h.check()

			// The eviction fails, and only that.
			if _, err := h.raw.Exec("CREATE TRIGGER nodel BEFORE DELETE ON hashes BEGIN SELECT RAISE(ABORT, 'no'); END"); err != nil {
				panic(err)
			}
			h.wait(3 * time.Hour)
			h.say("deleting made to fail")
			if err := h.db.Add(context.Background(), keys[1]); err == nil {
				h.fail("Add gives no error although evicting fails")
			}
			h.raw.Exec("DROP TRIGGER nodel")

			// The table is gone.
			if _, err := h.raw.Exec("DROP TABLE hashes"); err != nil {
				panic(err)
			}
			h.say("table dropped")
			if got, err := h.db.Has(context.Background(), keys[0]); err == nil {
				h.fail("Has without a table is %v, and no error", got)
			}
			if err := h.db.Add(context.Background(), keys[1]); err == nil {
				h.fail("Add without a table gives no error")
			}
			h.db.Close()
			h.say("closed")
			if got, err := h.db.Has(context.Background(), keys[0]); err == nil {
				h.fail("Has of a closed database is %v, and no error", got)
			}
			h.close()
			ncases++
		}
		if db, err := sqlite.Open(filepath.Join(dir, "missing", "db")); err == nil {
			failf("Open in a missing directory gives no error")
			db.Close()
		}
		notdb := filepath.Join(dir, "notdb")
		os.WriteFile(notdb, bytes.Repeat([]byte("this is no database\n"), 300), 0644)
		if db, err := sqlite.Open(notdb); err == nil {
			failf("Open of a file that is no database gives no error")
			db.Close()
		}
	})
}

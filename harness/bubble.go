package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime/debug"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

type corpusEntry = struct {
	Parent     string
	Path       string
	Data       []byte
	Values     []any
	Generation int
	IsSeed     bool
}

var errNoFuzz = errors.New("no fuzzing")

// bubbleDeps are the dependencies of package testing, of which nothing is used.
type bubbleDeps struct{}

func (bubbleDeps) ImportPath() string                          { return "verifharness" }
func (bubbleDeps) ModulePath() string                          { return "verifharness" }
func (bubbleDeps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (bubbleDeps) SetPanicOnExit0(bool)                        {}
func (bubbleDeps) StartCPUProfile(io.Writer) error             { return nil }
func (bubbleDeps) StopCPUProfile()                             {}
func (bubbleDeps) StartTestLog(io.Writer)                      {}
func (bubbleDeps) StopTestLog() error                          { return nil }
func (bubbleDeps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (bubbleDeps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []corpusEntry, []reflect.Type, string, string) error {
	return errNoFuzz
}
func (bubbleDeps) RunFuzzWorker(func(corpusEntry) error) error              { return errNoFuzz }
func (bubbleDeps) ReadCorpus(string, []reflect.Type) ([]corpusEntry, error) { return nil, nil }
func (bubbleDeps) CheckCorpus([]any, []reflect.Type) error                  { return nil }
func (bubbleDeps) ResetCoverage()                                           {}
func (bubbleDeps) SnapshotCoverage()                                        {}
func (bubbleDeps) InitRuntimeCoverage() (string, func(string, string) (string, error), func() float64) {
	return "", nil, nil
}

var bubbleInit = sync.OnceFunc(func() {
	args, out := os.Args, os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Args, os.Stdout = args[:1], null
	defer func() {
		os.Args, os.Stdout = args, out
		null.Close()
	}()
	// once, to initialise package testing; later tests need no second round
	none := []testing.InternalTest{{Name: "TestNothing", F: func(*testing.T) {}}}
	if rc := testing.MainStart(bubbleDeps{}, none, nil, nil, nil).Run(); rc != 0 {
		panic(fmt.Sprint("testing: exit code ", rc))
	}
})

// inBubble runs f with a clock that stands still, a given time after 2000-01-01 00:00:00 UTC.
func inBubble(after time.Duration, f func()) {
	bubbleInit()
	var p any
	var stack []byte
	done := false
	testing.RunTests(bubbleDeps{}.MatchString, []testing.InternalTest{{Name: "TestBubble", F: func(tt *testing.T) {
		synctest.Test(tt, func(*testing.T) {
			defer func() {
				if p = recover(); p != nil {
					stack = debug.Stack()
				}
				done = true
			}()
			time.Sleep(after)
			f()
		})
	}}})
	if p != nil {
		if fmt.Sprintf("%T", p) == "fw.stop" {
			panic(p)
		}
		panic(fmt.Sprintf("%v\n%s", p, stack))
	}
	if !done {
		panic("the test did not run")
	}
}
